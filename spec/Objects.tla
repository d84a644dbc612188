------------------------------- MODULE Objects -------------------------------
(* C22: functions of object arrays.  An element is known by its value; what   *)
(* it does is to compare, multiply and subtract, or to raise an exception.    *)
EXTENDS Extrema, Relations

\* results of the functions of one row; op and t for those that take them
AllEqual(x) == \A i \in DOMAIN x : x[i] = x[1]
IsInOrder(x, op) == \A i \in 1..(Len(x) - 1) : Sat(x[i], op, x[i + 1])
FirstSat(x, op, t) == LET s == {i \in DOMAIN x : Sat(x[i], op, t)} IN IF s = {} THEN -1 ELSE Min(s) - 1
Count(x, P(_)) == Cardinality({i \in DOMAIN x : P(x[i])})
Bool(b) == IF b THEN 1 ELSE 0
Det(a, b, c, d) == a * d - b * c
Result(fn, x, op, t) ==
  CASE fn = "argmin" -> <<ArgMin(x)>>
    [] fn = "argmax" -> <<ArgMax(x)>>
    [] fn = "minmax" -> <<MinVal(x), MaxVal(x)>>
    [] fn = "argminmax" -> <<ArgMin(x), ArgMax(x)>>
    [] fn = "min_argmin" -> <<MinVal(x), ArgMin(x)>>
    [] fn = "max_argmax" -> <<MaxVal(x), ArgMax(x)>>
    [] fn = "peaktopeak" -> <<MaxVal(x) - MinVal(x)>>
    [] fn = "all_same" -> <<Bool(AllEqual(x))>>
    [] fn = "ordered" -> <<Bool(IsInOrder(x, op))>>
    [] fn = "argfirst" -> <<FirstSat(x, op, t)>>
    [] fn = "first" -> <<IF FirstSat(x, op, t) = -1 THEN -77 ELSE Elem(x, FirstSat(x, op, t))>>
    [] fn = "searchsortedl" -> <<Count(x, LAMBDA v : v < t)>>
    [] fn = "searchsortedr" -> <<Count(x, LAMBDA v : v <= t)>>
    \* the second vector is the first one backwards
    [] fn = "cross2" -> <<Det(x[1], x[2], x[2], x[1])>>
    [] fn = "cross3" -> <<Det(x[2], x[3], x[2], x[1]), Det(x[3], x[1], x[1], x[3]), Det(x[1], x[2], x[3], x[2])>>

(* A recorded call: fault = the number of the operation that raised, 0 if     *)
(* none; total = the operations of the call without the fault; made = those   *)
(* of this call; err = "own" if the exception raised arrived, "other", "".    *)
(* unbalanced = objects whose references do not match the places that hold    *)
(* them; alive = temporary objects that nothing refers to but that exist.     *)
ObjectFailures(e) ==
  (IF e.fault = 0 /\ e.err # "" THEN {"exception-from-nowhere"} ELSE {})
  \cup (IF e.fault > 0 /\ e.err = "" THEN {"exception-lost"} ELSE {})
  \cup (IF e.fault > 0 /\ e.err = "other" THEN {"exception-replaced"} ELSE {})
  \cup (IF e.fault > 0 /\ e.made > e.fault THEN {"operation-after-exception"} ELSE {})
  \cup (IF e.unbalanced > 0 THEN {"references-unbalanced"} ELSE {})
  \cup (IF e.alive > 0 THEN {"object-leaked"} ELSE {})
  \cup (IF e.fault = 0 /\ e.err = "" /\ e.out # [r \in DOMAIN e.x |-> Result(e.fn, e.x[r], e.op, e.t)]
        THEN {"object-" \o e.fn} ELSE {})
=============================================================================

---------------------------- MODULE HistogramLoop ----------------------------
(* C07: a history of accumulating calls on one out array; each step of a call *)
(* looks at one element and either counts it or drops it.                     *)
EXTENDS Histogram, Emit
CONSTANTS MS, MaxLen, Calls
VARIABLES m, out, done, x, k, snaps
vars == <<m, out, done, x, k, snaps>>

Start(mm) == [b \in 1..mm |-> 100 * b]           \* distinct, not zero
W(n) == [i \in 1..n |-> 2 ^ (i - 1)]             \* the sum identifies the elements
Xs(mm) == SeqsOf(-1..(mm + 1), 0..MaxLen)        \* below, inside, at m and above

Init == /\ m \in MS
        /\ out = Start(m)
        /\ done = <<>> /\ x = <<>> /\ k = 0 /\ snaps = <<>>
Call == /\ k = 0 /\ Len(done) < Calls
        /\ x' \in Xs(m) /\ k' = 1
        /\ UNCHANGED <<m, out, done, snaps>>
Count == /\ k > 0 /\ k <= Len(x) /\ InRange(x[k], m)
         /\ out' = [out EXCEPT ![x[k] + 1] = @ + W(Len(x))[k]]
         /\ k' = k + 1 /\ UNCHANGED <<m, done, x, snaps>>
Drop == /\ k > 0 /\ k <= Len(x) /\ ~InRange(x[k], m)
        /\ k' = k + 1 /\ UNCHANGED <<m, out, done, x, snaps>>
Return == /\ k = Len(x) + 1
          /\ done' = Append(done, x) /\ snaps' = Append(snaps, out)
          /\ x' = <<>> /\ k' = 0 /\ UNCHANGED <<m, out>>
Next == Call \/ Count \/ Drop \/ Return
Spec == Init /\ [][Next]_vars

\* out is what the completed calls and the prefix of the current one add up to
Accumulated ==
    LET base == FoldLeft(LAMBDA o, xs : Added(xs, W(Len(xs)), m, o), Start(m), done)
        cur == IF k = 0 THEN <<>> ELSE SubSeq(x, 1, k - 1)
    IN out = Added(cur, W(Len(x)), m, base)
Monotone == [][\A b \in 1..m : out'[b] >= out[b]]_vars
Finished == Len(done) = Calls /\ k = 0
Emitted == Finished => EmitCase([m |-> m, calls |-> done, outs |-> snaps])
=============================================================================

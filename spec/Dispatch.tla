------------------------------ MODULE Dispatch ------------------------------
(* C21: which loop of a published table a call uses.  A type is its NumPy     *)
(* character.                                                                 *)
EXTENDS LoopTable, FiniteSets, FiniteSetsExt, TLC

Types == {"?", "b", "B", "h", "H", "i", "I", "l", "L", "q", "Q", "e", "f", "d", "g", "F", "D", "G", "O", "M", "m"}
Signed == {"b", "h", "i", "l", "q"}
Unsigned == {"B", "H", "I", "L", "Q"}
Ints == Signed \cup Unsigned
Floats == {"e", "f", "d", "g"}
Cplx == {"F", "D", "G"}
Bits(t) == CASE t \in {"b", "B"} -> 8 [] t \in {"h", "H"} -> 16 [] t \in {"i", "I"} -> 32 [] OTHER -> 64
\* floating-point types by the widest integers that they are meant to hold
Holds(t) == CASE t = "e" -> 8 [] t \in {"f", "F"} -> 16 [] OTHER -> 64
Level(t) == CASE t = "e" -> 1 [] t \in {"f", "F"} -> 2 [] t \in {"d", "D"} -> 3 [] OTHER -> 4

\* safe conversion of type a to type b
CanCast(a, b) ==
  \/ a = b \/ b = "O"
  \/ a = "?" /\ b # "M"
  \/ a \in Signed /\ b \in Signed /\ Bits(a) <= Bits(b)
  \/ a \in Unsigned /\ b \in Unsigned /\ Bits(a) <= Bits(b)
  \/ a \in Unsigned /\ b \in Signed /\ Bits(a) < Bits(b)
  \/ a \in Ints /\ b \in Floats \cup Cplx /\ Bits(a) <= Holds(b)
  \/ a \in Floats /\ b \in Floats \cup Cplx /\ Level(a) <= Level(b)
  \/ a \in Cplx /\ b \in Cplx /\ Level(a) <= Level(b)
  \/ a \in Ints /\ b = "m" /\ ~(a \in Unsigned /\ Bits(a) = 64)

\* loop q of the table takes arguments of types a; loops on objects only serve calls with some object
Accepts(q, a, n) == /\ \A j \in DOMAIN a : CanCast(a[j], q[1][j])
                    /\ \/ n = 1 \/ \E j \in DOMAIN a : a[j] = "O"
                       \/ \A j \in DOMAIN a : q[1][j] # "O"
Exact(loops, a) == {k \in DOMAIN loops : loops[k][1] = a}
Usable(loops, a) == {k \in DOMAIN loops : Accepts(loops[k], a, Len(loops))}
\* the number of the loop; 0: TypeError
Resolve(loops, a) == IF Exact(loops, a) # {} THEN Min(Exact(loops, a))
                     ELSE IF Usable(loops, a) # {} THEN Min(Usable(loops, a)) ELSE 0
InTypes(loops, a) == LET k == Resolve(loops, a) IN IF k = 0 THEN <<>> ELSE loops[k][1]
OutTypes(loops, a) == LET k == Resolve(loops, a) IN IF k = 0 THEN <<>> ELSE loops[k][2]

\* The wrappers: what they return for a type they take, <<>> where they refuse
Wrapper(name, loops, a) ==
  CASE name = "bincount" -> IF a[1] \in Ints THEN <<"l">> ELSE <<>>
    [] name = "bincountw" -> IF a[1] \in Ints /\ a[2] # "?" /\ Resolve(loops, a) # 0 THEN <<a[2]>> ELSE <<>>
    [] name = "convert_to_base" -> IF Resolve(loops, a) # 0 THEN <<"l">> ELSE <<>>
    [] name = "one_hot" -> IF a[1] \in Ints THEN a ELSE <<>>
    [] name \in {"nextn_greater", "nextn_less"} -> IF a[1] \in {"f", "d", "g"} THEN a ELSE <<>>
    [] OTHER -> OutTypes(loops, a)

\* event: t = table, name, a = types of the arguments, r = types of the results, err = the exception
DispatchFailures(e) ==
  LET loops == Tables[e.t].loops
      want == Wrapper(e.name, loops, e.a)
  IN (IF want = <<>> /\ e.err \notin {"TypeError", "ValueError"} THEN {"type-not-refused"} ELSE {})
     \cup (IF want # <<>> /\ e.err # "" THEN {"type-refused"} ELSE {})
     \cup (IF want # <<>> /\ e.err = "" /\ e.r # want THEN {"type-of-result"} ELSE {})
     \cup (IF e.wrote THEN {"written-on-error"} ELSE {})
=============================================================================

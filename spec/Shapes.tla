------------------------------- MODULE Shapes -------------------------------
(* C21: shapes that the signature of core dimensions of a function takes.     *)
EXTENDS LoopTable, FiniteSets, TLC

\* the core part and the outer part of the shape s of an operand with k core dimensions
Core(s, k) == SubSeq(s, Len(s) - k + 1, Len(s))
Outer(s, k) == SubSeq(s, 1, Len(s) - k)
MaxInt(a, b) == IF a >= b THEN a ELSE b
\* shapes, the last dimensions lined up
FromEnd(s, i) == IF i <= Len(s) THEN s[Len(s) - i + 1] ELSE 1
Fits(S) == \A p, q \in S : \A i \in 1..MaxInt(Len(p), Len(q)) :
             FromEnd(p, i) = FromEnd(q, i) \/ FromEnd(p, i) = 1 \/ FromEnd(q, i) = 1
Widest(S) == CHOOSE n \in {Len(p) : p \in S} : \A p \in S : Len(p) <= n
Joined(S) == LET n == Widest(S)
                 at(i) == {FromEnd(p, i) : p \in S}
             IN [k \in 1..n |-> IF at(n - k + 1) = {1} THEN 1 ELSE CHOOSE v \in at(n - k + 1) : v # 1]

Places(g) == {<<j, k>> : j \in DOMAIN g.cin, k \in 1..4} \cap
             UNION {{<<j, k>> : k \in DOMAIN g.cin[j]} : j \in DOMAIN g.cin}
Enough(g, s) == \A j \in DOMAIN s : Len(s[j]) >= Len(g.cin[j])
At(g, s, p) == Core(s[p[1]], Len(g.cin[p[1]]))[p[2]]
Coherent(g, s) == \A p, q \in Places(g) :
   /\ g.cin[p[1]][p[2]] > 0 => At(g, s, p) = g.cin[p[1]][p[2]]
   /\ g.cin[p[1]][p[2]] = g.cin[q[1]][q[2]] => At(g, s, p) = At(g, s, q)
Outers(g, s) == {Outer(s[j], Len(g.cin[j])) : j \in DOMAIN s}
\* a core dimension is too short for the function to have a value
Short(g, s) == \E p \in Places(g) : g.cin[p[1]][p[2]] < 0 /\ At(g, s, p) < g.least
Joins(g, s) == Enough(g, s) /\ Coherent(g, s) /\ Fits(Outers(g, s))
Accepted(g, s) == Joins(g, s) /\ ~Short(g, s)
\* no element of the batch, so no value is missing: refused or not
Vacuous(g, s) == Joins(g, s) /\ Short(g, s) /\ \E i \in DOMAIN Joined(Outers(g, s)) : Joined(Outers(g, s))[i] = 0
SizeOf(g, s, v) == IF v > 0 THEN v ELSE At(g, s, CHOOSE p \in Places(g) : g.cin[p[1]][p[2]] = v)
OutShapes(g, s) == [j \in DOMAIN g.cout |->
                      Joined(Outers(g, s)) \o [k \in DOMAIN g.cout[j] |-> SizeOf(g, s, g.cout[j][k])]]

\* event: g = signature, s = shapes of the arguments, r = shapes of the results, err = the exception
ShapeFailures(e) ==
  LET g == Signatures[e.g]
      ok == Accepted(g, e.s) \/ (Vacuous(g, e.s) /\ e.err = "")
  IN (IF ~ok /\ e.err # "ValueError" THEN {"shape-not-refused"} ELSE {})
     \cup (IF ok /\ e.err # "" THEN {"shape-refused"} ELSE {})
     \cup (IF ok /\ e.err = "" /\ e.r # OutShapes(g, e.s) THEN {"shape-of-result"} ELSE {})
     \cup (IF e.wrote THEN {"written-on-error"} ELSE {})
=============================================================================

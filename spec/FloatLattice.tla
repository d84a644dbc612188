------------------------------ MODULE FloatLattice ------------------------------
(* C09: the lattice of a binary floating-point type.  A value is              *)
(* [neg |-> BOOLEAN, mag |-> limbs], mag the bits below the sign as an         *)
(* unsigned number in limbs, most significant first; limb i has base B[i].    *)
(* Increasing mag by one goes to the neighbour further from zero.             *)
EXTENDS Vals

\* exponent limb all ones, everything else zero: infinity; more than that: NaN
Inf(B) == [i \in 1..Len(B) |-> IF i = 1 THEN B[1] - 1 ELSE 0]
Zero(B) == [i \in 1..Len(B) |-> 0]
IsNan(B, mag) == mag[1] = B[1] - 1 /\ mag # Inf(B)

Incr(B, m) == LET k == Max({i \in 1..Len(m) : m[i] < B[i] - 1})   \* the limb that takes the carry
              IN [i \in 1..Len(m) |-> IF i < k THEN m[i] ELSE IF i = k THEN m[i] + 1 ELSE 0]
Decr(B, m) == LET k == Max({i \in 1..Len(m) : m[i] > 0})
              IN [i \in 1..Len(m) |-> IF i < k THEN m[i] ELSE IF i = k THEN m[i] - 1 ELSE B[i] - 1]

Up(B, v) == IF IsNan(B, v.mag) THEN v
            ELSE IF v.mag = Zero(B) THEN [neg |-> FALSE, mag |-> Incr(B, v.mag)]
            ELSE IF v.neg THEN [neg |-> TRUE, mag |-> Decr(B, v.mag)]     \* -tiny goes to -0
            ELSE IF v.mag = Inf(B) THEN v
            ELSE [neg |-> FALSE, mag |-> Incr(B, v.mag)]
Mirror(v) == [v EXCEPT !.neg = ~v.neg]
Down(B, v) == IF IsNan(B, v.mag) THEN v ELSE Mirror(Up(B, Mirror(v)))
Step(B, up, v) == IF up THEN Up(B, v) ELSE Down(B, v)

\* The rank of a value in the order of the lattice, both zeros 0 (small formats)
Num(B, m) == FoldLeft(LAMBDA a, i : a * B[i] + m[i], 0, [i \in 1..Len(m) |-> i])
Rank(B, v) == IF v.neg THEN -Num(B, v.mag) ELSE Num(B, v.mag)

\* Signaling NaN: exponent all ones, quiet bit clear, payload not zero
Signaling(expAllOnes, quiet, payload) == expAllOnes /\ quiet = 0 /\ payload # 0

SameValue(B, a, b) == \/ a = b
                      \/ IsNan(B, a.mag) /\ IsNan(B, b.mag)
RECURSIVE Iter(_, _, _, _)
Iter(B, up, v, n) == IF n = 0 THEN <<>> ELSE LET w == Step(B, up, v) IN <<w>> \o Iter(B, up, w, n - 1)

LatticeFailures(e) ==
    CASE e.k = "steps" ->       \* v, and what iterating the function returned
           (IF Len(e.r) = e.n /\ \A i \in 1..e.n :
                  SameValue(e.b, e.r[i], Step(e.b, e.up, IF i = 1 THEN e.v ELSE e.r[i - 1]))
            THEN {} ELSE {"neighbour"})
      [] e.k = "snan" ->        \* the payloads, of all that were tried, which the function reported
           (IF \A i \in 1..Len(e.pay) : e.got[i] = Signaling(e.ones, e.quiet, e.pay[i]) THEN {} ELSE {"signaling"})
           \cup (IF e.same THEN {} ELSE {"value-altered"})
=============================================================================

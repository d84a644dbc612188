------------------------------ MODULE LatticeWalk ------------------------------
(* C09: nextafter limb by limb with carry or borrow, n times, from every      *)
(* pattern whose limbs are at or next to a boundary.                          *)
EXTENDS FloatLattice, Emit
CONSTANTS Bases, Edge, N, Small
B_toy == <<4, 2, 3>>
B_f == <<256, 128, 65536>>
B_d == <<2048, 16, 65536, 65536, 65536>>
B_g == <<32768, 32768, 65536, 65536, 65536>>
VARIABLES v0, up, v, i, k, phase, log
vars == <<v0, up, v, i, k, phase, log>>
Near(j) == {x \in {0, 1, 2, Bases[j] \div 2 - 1, Bases[j] \div 2, Bases[j] - 3, Bases[j] - 2, Bases[j] - 1} :
                x >= 0 /\ x < Bases[j] /\ (Edge = 1 => x \in {0, 1, Bases[j] - 2, Bases[j] - 1})}
Pats == {m \in [1..Len(Bases) -> UNION {Near(j) : j \in 1..Len(Bases)}] : \A j \in 1..Len(Bases) : m[j] \in Near(j)}
Init == /\ v0 \in [neg : BOOLEAN, mag : Pats] /\ up \in BOOLEAN
        /\ v = v0 /\ i = 0 /\ k = Len(Bases) /\ phase = "start" /\ log = <<>>
Away == v.neg # up           \* the magnitude grows
Stuck == IsNan(Bases, v.mag) \/ (Away /\ v.mag = Inf(Bases))
Start == /\ phase = "start" /\ i < N
         /\ IF Stuck THEN phase' = "done" /\ UNCHANGED v
            ELSE IF v.mag = Zero(Bases) THEN phase' = "ripple" /\ v' = [v EXCEPT !.neg = ~up]
            ELSE phase' = "ripple" /\ UNCHANGED v
         /\ k' = Len(Bases) /\ UNCHANGED <<v0, up, i, log>>
\* one limb; the carry or borrow goes on to the next limb
Ripple == /\ phase = "ripple"
          /\ LET grow == Away
                 full == IF grow THEN v.mag[k] = Bases[k] - 1 ELSE v.mag[k] = 0
             IN IF full THEN /\ v' = [v EXCEPT !.mag[k] = IF grow THEN 0 ELSE Bases[k] - 1]
                             /\ k' = k - 1 /\ UNCHANGED phase
                ELSE /\ v' = [v EXCEPT !.mag[k] = @ + (IF grow THEN 1 ELSE -1)]
                     /\ phase' = "done" /\ UNCHANGED k
          /\ UNCHANGED <<v0, up, i, log>>
Write == /\ phase = "done" /\ log' = Append(log, v) /\ i' = i + 1 /\ phase' = "start"
         /\ UNCHANGED <<v0, up, v, k>>
Next == Start \/ Ripple \/ Write
Spec == Init /\ [][Next]_vars
Between == phase = "start"
Finished == Between /\ i = N
Right == Finished => log = Iter(Bases, up, v0, N)
\* the neighbour differs by exactly one in rank, except at the ends
Adjacent == Between /\ i > 0 /\ Small /\ ~IsNan(Bases, v0.mag) =>
    LET a == Rank(Bases, IF i = 1 THEN v0 ELSE log[i - 1])
        b == Rank(Bases, log[i])
        top == Num(Bases, Inf(Bases))
    IN IF up THEN b = MinOf(a + 1, top) ELSE b = MaxOf(a - 1, -top)
\* there and back (zero loses its sign)
ThereAndBack == Between /\ i > 0 /\ ~IsNan(Bases, v0.mag) =>
    LET a == IF i = 1 THEN v0 ELSE log[i - 1]
    IN a.mag # Inf(Bases) => Step(Bases, ~up, log[i]).mag = a.mag
KeepsNan == Between /\ i > 0 /\ IsNan(Bases, v0.mag) => log[i] = v0
Emitted == Finished => EmitCase([v |-> v0, up |-> up, r |-> log])
=============================================================================

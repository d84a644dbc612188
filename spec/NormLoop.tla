-------------------------------- MODULE NormLoop --------------------------------
(* C20: vnorm (a pass for the maximum and special values, a pass for the sum) *)
(* and rms, on moduli.                                                        *)
EXTENDS Geometry, Emit
CONSTANTS Mods, Orders, MaxLen
VARIABLES m, p, k, phase, mx, sum, sq
vars == <<m, p, k, phase, mx, sum, sq>>
Init == /\ \E n \in 0..MaxLen : m \in [1..n -> Mods]
        /\ p \in Orders /\ k = 0 /\ phase = "max" /\ mx = 0 /\ sum = 0 /\ sq = 0
MaxPass == /\ phase = "max"
           /\ IF k = Len(m) THEN /\ phase' = (IF mx \in {0, PINF} THEN "done" ELSE "sum") /\ k' = 0 /\ UNCHANGED mx
              ELSE IF IsNaN(m[k + 1]) THEN phase' = "nan" /\ UNCHANGED <<k, mx>>
              ELSE mx' = MaxOf(mx, m[k + 1]) /\ k' = k + 1 /\ UNCHANGED phase
           /\ UNCHANGED <<m, p, sum, sq>>
SumPass == /\ phase = "sum"
           /\ IF k = Len(m) THEN phase' = "done" /\ UNCHANGED <<k, sum, sq>>
              ELSE /\ sum' = (IF p = PINF THEN MaxOf(sum, m[k + 1]) ELSE sum + Pow(m[k + 1], p))
                   /\ sq' = sq + m[k + 1] * m[k + 1] /\ k' = k + 1 /\ UNCHANGED phase
           /\ UNCHANGED <<m, p, mx>>
Next == MaxPass \/ SumPass
Spec == Init /\ [][Next]_vars
Done == phase \in {"done", "nan"}
Result == IF phase = "nan" THEN NAN ELSE IF mx \in {0, PINF} THEN mx ELSE sum
Right == Done => NormOf(m, p).num = Result
\* between the maximum and n times it
Bounded == phase = "done" /\ mx # PINF => LET r == NormOf(m, p)
                                         IN r.num >= Pow(mx, r.p) /\ r.num <= Pow(mx, r.p) * MaxOf(1, Len(m))
\* the norm of the squares with order p is the square of the norm with order 2p
Sq(v) == IF IsFin(v) THEN v * v ELSE v
Powers == Done /\ p \in {1, 2} => NormOf([i \in 1..Len(m) |-> Sq(m[i])], p).num
                                    = LET r == NormOf(m, 2 * p) IN IF phase = "nan" \/ mx \in {0, PINF} THEN Sq(r.num) ELSE r.num
Emitted == Done => EmitCase([m |-> m, p |-> p, norm |-> NormOf(m, p),
                             rms |-> IF m # <<>> THEN RmsOf(m) ELSE Root(ODD, 1, 1)])
=============================================================================

-------------------------------- MODULE KBNLoop --------------------------------
(* C19: Neumaier's loop in a toy floating-point arithmetic of P bits, round   *)
(* to nearest, ties to even; a value is an integer with at most P significant *)
(* bits.  BIG = 2^Q with Q >= P + 2 in the toy arithmetic.                    *)
EXTENDS KBNSum, Emit
CONSTANTS P, Q, His, Los, MaxLen, Shift, Specials
VARIABLES x, k, acc, c, fix
vars == <<x, k, acc, c, fix>>
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE Unit(_, _)
Unit(a, u) == IF a < Pow2(P) * u THEN u ELSE Unit(a, 2 * u)      \* the unit in the last place
Rnd(v) == LET a == AbsOf(v)
              u == Unit(a, 1)
              q == a \div u
              r == a % u
              up == 2 * r > u \/ (2 * r = u /\ q % 2 = 1)
              m == (IF up THEN q + 1 ELSE q) * u
          IN IF v < 0 THEN -m ELSE m
Big == Pow2(Q)
Num(t) == t[1] * Big + t[2]
Hs == {h - Shift : h \in His}
Ls == {l - Shift : l \in Los}
Terms == {<<h, 0>> : h \in Hs \ {0}} \cup {<<0, l>> : l \in Ls} \cup
         (IF Specials THEN {<<PINF, 0>>, <<NINF, 0>>, <<NAN, 0>>} ELSE {})
Init == /\ \E n \in 0..MaxLen : x \in [1..n -> Terms]
        /\ k = 0 /\ acc = 0 /\ c = 0 /\ fix = ODD
\* a NaN or an infinity ends the scan: the rest can only make it NaN
Hit == /\ k < Len(x) /\ fix = ODD /\ Special(x[k + 1])
       /\ fix' = (IF IsNaN(x[k + 1][1]) THEN NAN
                  ELSE IF \E j \in (k + 2)..Len(x) : IsNaN(x[j][1]) \/ (IsInf(x[j][1]) /\ x[j][1] # x[k + 1][1])
                  THEN NAN ELSE x[k + 1][1])
       /\ k' = Len(x) /\ UNCHANGED <<x, acc, c>>
Add == /\ k < Len(x) /\ fix = ODD /\ ~Special(x[k + 1])
       /\ LET v == Num(x[k + 1])
              t == Rnd(acc + v)
          IN /\ c' = (IF AbsOf(acc) >= AbsOf(v) THEN Rnd(c + Rnd(Rnd(acc - t) + v))
                      ELSE Rnd(c + Rnd(Rnd(v - t) + acc)))
             /\ acc' = t
       /\ k' = k + 1 /\ UNCHANGED <<x, fix>>
Next == Hit \/ Add
Spec == Init /\ [][Next]_vars
Done == k = Len(x)
Exact == Done => IF fix # ODD THEN KbnSum(x) = <<fix, 0>>
                 ELSE Rnd(acc + c) = Rnd(Num(KbnSum(x)))
\* nothing is lost on the way
Compensated == fix = ODD => acc + c = Num(Sum2(SubSeq(x, 1, k)))
Emitted == Done => EmitCase([x |-> x, out |-> KbnSum(x)])
=============================================================================

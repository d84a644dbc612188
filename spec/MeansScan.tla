------------------------------ MODULE MeansScan ------------------------------
(* C16: the scan of the implementation: flags, extremes and an accumulator    *)
(* over the elements, then the case analysis.                                 *)
EXTENDS Means, Emit
CONSTANTS Data, Ps, Lens, MaxW, Shift
VARIABLES x, w, p, k, neg, nan, zero, inf, lo, hi, num, den
vars == <<x, w, p, k, neg, nan, zero, inf, lo, hi, num, den>>
Elts == {IF v >= 1000 THEN v ELSE v - Shift : v \in Data}
Exps == {IF v >= 1000 THEN v ELSE IF v = 999 THEN NINF ELSE v - 3 : v \in Ps}
Init == /\ \E n \in Lens : x \in [1..n -> Elts] /\ w \in [1..n -> IF MaxW = 0 THEN {1} ELSE 1..MaxW]
        /\ p \in Exps
        /\ k = 0 /\ neg = FALSE /\ nan = FALSE /\ zero = FALSE /\ inf = FALSE
        /\ lo = 0 /\ hi = 0
        /\ num = (IF p = 0 THEN 1 ELSE 0) /\ den = 1
\* the sum of w*x^p as a fraction, one element at a time; the product for p = 0
Add(v, u) == IF p > 0 THEN <<num + u * Pow(v, p), den>>
             ELSE IF p = 0 THEN <<num * Pow(v, u), 1>>
             ELSE <<num * Pow(v, -p) + u * den, den * Pow(v, -p)>>
Scan == /\ k < Len(x) /\ ~neg /\ ~nan /\ k' = k + 1
        /\ LET v == x[k + 1]
           IN /\ nan' = IsNaN(v) /\ neg' = (v < 0)
              /\ inf' = (inf \/ v = PINF) /\ zero' = (zero \/ v = 0)
              /\ lo' = (IF k = 0 THEN v ELSE MinOf(lo, v)) /\ hi' = (IF k = 0 THEN v ELSE MaxOf(hi, v))
              /\ IF IsFin(v) /\ v > 0 /\ IsFin(p)
                 THEN LET a == Add(v, w[k + 1]) IN num' = a[1] /\ den' = a[2]
                 ELSE UNCHANGED <<num, den>>
        /\ UNCHANGED <<x, w, p>>
Next == Scan
Spec == Init /\ [][Next]_vars
Done == neg \/ nan \/ k = Len(x)
Result == IF neg \/ nan \/ IsNaN(p) THEN Const(NAN)
          ELSE IF lo = hi THEN Const(lo)
          ELSE IF p = PINF THEN Const(hi) ELSE IF p = NINF THEN Const(lo)
          ELSE IF p = 0 THEN (IF zero /\ inf THEN Const(NAN) ELSE IF inf THEN Const(PINF) ELSE IF zero THEN Const(0)
                              ELSE Root(num, 1, SumW(w)))
          ELSE IF p > 0 THEN (IF inf THEN Const(PINF) ELSE Root(num, SumW(w), p))
          ELSE IF zero THEN Const(0) ELSE Root(SumW(w) * den, num, -p)
Right == Done => SameMean(Result, PMean(x, w, p))
Repeats == Done /\ (p >= -1 \/ SumW(w) <= 6) => SameMean(PMean(x, w, p), PMean(Repeat(x, w), Ones(SumW(w)), p))
Bounded == Done /\ ~(zero \/ neg \/ nan) /\ IsFin(p) => Within(PMean(x, w, p), x)
Harmonic == Done /\ p = -1 /\ ~neg => SameMean(PMean(x, w, -1), HMean(x, w)) \/ (lo = hi)
\* the mean of the squares with exponent p is the square of the mean with exponent 2p
Sq(v) == IF IsFin(v) THEN v * v ELSE v
Powers == Done /\ p \in {1, -1} /\ ~neg =>
              LET a == PMean([i \in 1..Len(x) |-> Sq(x[i])], w, p)
                  b == PMean(x, w, 2 * p)
              IN a.k = b.k /\ (IF a.k = "const" THEN a.v = Sq(b.v) ELSE a.num = b.num /\ a.den = b.den)
Emitted == Done => EmitCase([x |-> x, w |-> w, p |-> p, pm |-> PMean(x, w, p),
                             hm |-> IF Neg(x) /\ Infty(x) THEN Const(ODD) ELSE HMean(x, w)])
=============================================================================

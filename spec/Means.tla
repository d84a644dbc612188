-------------------------------- MODULE Means --------------------------------
(* C16: generalized means.  A mean is a symbol: a constant, the p-th root of  *)
(* a fraction, or the n-th root of a product.                                 *)
EXTENDS Vals

Const(v) == [k |-> "const", v |-> v, num |-> 0, den |-> 1, p |-> 1]
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Root(num, den, p) == LET g == Gcd(AbsOf(num), AbsOf(den))
                         s == IF den < 0 THEN -1 ELSE 1
                     IN [k |-> "root", v |-> 0, num |-> s * (num \div g), den |-> s * (den \div g), p |-> p]

RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
SumW(w) == SumSeq(w)
Ones(n) == [i \in 1..n |-> 1]
Repeat(x, w) == FoldLeft(LAMBDA a, i : a \o [j \in 1..w[i] |-> x[i]], <<>>, [i \in 1..Len(x) |-> i])

Neg(x) == \E i \in 1..Len(x) : x[i] < 0 /\ ~IsNaN(x[i])
Nan(x) == \E i \in 1..Len(x) : IsNaN(x[i])
Zero(x) == \E i \in 1..Len(x) : x[i] = 0
Infty(x) == \E i \in 1..Len(x) : x[i] = PINF

\* sum of w*x^p over the finite elements, p > 0
PSum(x, w, p) == SumSeq([i \in 1..Len(x) |-> w[i] * Pow(x[i], p)])
\* sum of w*x^-q as a numerator over Prod(x^q); elements at infinity contribute 0
Fin(x) == {i \in 1..Len(x) : x[i] # PINF}
L(x, q) == Prod([i \in 1..Len(x) |-> IF x[i] = PINF THEN 1 ELSE Pow(x[i], q)])
RSum(x, w, q) == SumSeq([i \in 1..Len(x) |-> IF x[i] = PINF THEN 0 ELSE w[i] * (L(x, q) \div Pow(x[i], q))])

\* exponents: an integer, NINF, PINF or NAN
PMean(x, w, p) ==
    CASE IsNaN(p) \/ Neg(x) \/ Nan(x) -> Const(NAN)
      [] \A i \in 1..Len(x) : x[i] = x[1] -> Const(x[1])
      [] p = PINF -> Const(Max(Range(x)))
      [] p = NINF -> Const(Min(Range(x)))
      [] p = 0 -> IF Zero(x) /\ Infty(x) THEN Const(NAN)
                  ELSE IF Infty(x) THEN Const(PINF) ELSE IF Zero(x) THEN Const(0)
                  ELSE Root(Prod([i \in 1..Len(x) |-> Pow(x[i], w[i])]), 1, SumW(w))
      [] p > 0 -> IF Infty(x) THEN Const(PINF) ELSE Root(PSum(x, w, p), SumW(w), p)
      [] OTHER -> IF Zero(x) THEN Const(0)
                  ELSE IF RSum(x, w, -p) = 0 THEN Const(PINF)
                  ELSE Root(SumW(w) * L(x, -p), RSum(x, w, -p), -p)
\* hmean accepts negative values; the sum of the reciprocals must not cancel
HMean(x, w) ==
    IF Nan(x) THEN Const(NAN) ELSE IF Zero(x) THEN Const(0)
    ELSE IF RSum(x, w, 1) = 0 THEN Const(IF Infty(x) THEN PINF ELSE ODD)
    ELSE Root(SumW(w) * L(x, 1), RSum(x, w, 1), 1)

\* Same symbol value (for fractions of small integers)
SameMean(a, b) == a.k = b.k /\ (IF a.k = "const" THEN a.v = b.v
                                ELSE a.p = b.p /\ a.num = b.num /\ a.den = b.den)
\* the mean of finite positive data is between the smallest and the largest
Within(m, x) == m.k = "root" => LET lo == Min(Range(x))
                                    hi == Max(Range(x))
                                IN /\ Pow(lo, m.p) * m.den <= m.num
                                   /\ (hi # PINF => m.num <= Pow(hi, m.p) * m.den)

MeansFailures(e) ==
    CASE e.k = "chain" ->   \* the mean for increasing exponents: ranks a, b of the ends of its interval; of min and of max
           (IF \A i, j \in 1..Len(e.a) : i < j => e.a[i] <= e.b[j] THEN {} ELSE {"decreases-with-p"})
           \cup (IF \A i \in 1..Len(e.a) : e.lo <= e.b[i] /\ e.a[i] <= e.hi THEN {} ELSE {"outside-min-max"})
      [] e.k = "same" ->    \* the same mean of the same data in different forms
           IF \A i \in 1..Len(e.r) : e.r[i] = e.r[1] THEN {} ELSE {e.clause}
=============================================================================

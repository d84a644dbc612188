------------------------------ MODULE Dispersion ------------------------------
(* C17: mean, variance, mean absolute difference, Gini index: fractions       *)
(* <<num, den>> of integers; ODD in place of num where there is no value.     *)
EXTENDS Vals
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Frac(num, den) == IF den = 0 THEN <<ODD, 1>>
                  ELSE LET g == Gcd(AbsOf(num), AbsOf(den))
                           s == IF den < 0 THEN -1 ELSE 1
                       IN <<s * (num \div g), s * (den \div g)>>
FAdd(a, b) == Frac(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
FSub(a, b) == Frac(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
FMul(a, b) == Frac(a[1] * b[1], a[2] * b[2])
FDiv(a, b) == Frac(a[1] * b[2], a[2] * b[1])

SumSq(x) == SumSeq([i \in 1..Len(x) |-> x[i] * x[i]])
MeanOf(x) == Frac(SumSeq(x), Len(x))
\* n times the sum of the squared deviations
DevSq(x) == Len(x) * SumSq(x) - SumSeq(x) * SumSeq(x)
VarOf(x, ddof) == IF ddof >= Len(x) THEN <<ODD, 1>> ELSE Frac(DevSq(x), Len(x) * (Len(x) - ddof))

PairSum(x) == SumSeq([k \in 1..(Len(x) * Len(x)) |->
                      AbsOf(x[((k - 1) \div Len(x)) + 1] - x[((k - 1) % Len(x)) + 1])])
MadOf(x, unbiased) == Frac(PairSum(x), Len(x) * (IF unbiased THEN Len(x) - 1 ELSE Len(x)))
\* the relative difference; PINF: a positive difference relative to a mean of 0
RmadOf(x, unbiased) == LET m == MadOf(x, unbiased)
                           a == MeanOf(x)
                       IN IF m[1] = ODD THEN <<ODD, 1>>
                          ELSE IF a[1] = 0 THEN (IF m[1] = 0 THEN <<ODD, 1>> ELSE <<PINF, 1>>)
                          ELSE FDiv(m, a)
GiniOf(x, unbiased) == LET r == RmadOf(x, unbiased)
                       IN IF r[1] \in {ODD, PINF} THEN r ELSE FMul(r, <<1, 2>>)
Shifted(x, c) == [i \in 1..Len(x) |-> x[i] + c]

DispersionFailures(e) ==
    CASE e.k = "same" -> IF \A i \in 1..Len(e.r) : e.r[i] = e.r[1] THEN {} ELSE {e.clause}
      [] e.k = "mv" ->     \* exact data: mean*n and var*n*(n-ddof), and 2*mad*n*(n-1)/2
           (IF e.mean = SumSeq(e.x) THEN {} ELSE {"mean"})
           \cup (IF e.var = DevSq(e.x) THEN {} ELSE {"variance"})
      [] e.k = "mad" -> IF e.mad = PairSum(e.x) THEN {} ELSE {"mad"}
=============================================================================

-------------------------------- MODULE Corr --------------------------------
(* C18: Pearson correlation (numerator, and square of the denominator) and    *)
(* the weighted Jaccard index (a fraction), of integer data.                  *)
EXTENDS Vals
Dot(x, y) == SumSeq([i \in 1..Len(x) |-> x[i] * y[i]])
Cov(x, y) == Len(x) * Dot(x, y) - SumSeq(x) * SumSeq(y)
NoCorr(x, y) == Cov(x, x) = 0 \/ Cov(y, y) = 0
MinSum(x, y) == SumSeq([i \in 1..Len(x) |-> MinOf(x[i], y[i])])
MaxSum(x, y) == SumSeq([i \in 1..Len(x) |-> MaxOf(x[i], y[i])])

CorrFailures(e) ==
    CASE e.k = "same" -> IF \A i \in 1..Len(e.r) : e.r[i] = e.r[1] THEN {} ELSE {e.clause}
      [] e.k = "bounds" -> IF e.lo <= e.r /\ e.r <= e.hi THEN {} ELSE {"bounds"}
      [] e.k = "wj" ->       \* out times MaxSum recovered as an integer
            IF MaxSum(e.x, e.y) = 0 THEN (IF e.out = NAN THEN {} ELSE {"wjaccard"})
            ELSE IF e.out = MinSum(e.x, e.y) THEN {} ELSE {"wjaccard"}
      [] e.k = "corr" ->     \* r times the denominator recovered as an integer
            IF NoCorr(e.x, e.y) THEN (IF e.out = NAN THEN {} ELSE {"corr"})
            ELSE IF e.out = Cov(e.x, e.y) THEN {} ELSE {"corr"}
=============================================================================

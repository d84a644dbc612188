------------------------------ MODULE CorrLoop ------------------------------
(* C18: two passes over the data (sums, then centered products), and the      *)
(* running sums of minima and maxima.                                         *)
EXTENDS Corr, Emit
CONSTANTS Data, Lens
VARIABLES x, y, k, phase, sx, sy, sxy, sxx, syy, lo, hi
vars == <<x, y, k, phase, sx, sy, sxy, sxx, syy, lo, hi>>
Init == /\ \E n \in Lens : x \in [1..n -> Data] /\ y \in [1..n -> Data]
        /\ k = 0 /\ phase = "mean" /\ sx = 0 /\ sy = 0 /\ sxy = 0 /\ sxx = 0 /\ syy = 0 /\ lo = 0 /\ hi = 0
Mean == /\ phase = "mean"
        /\ IF k < Len(x) THEN /\ sx' = sx + x[k + 1] /\ sy' = sy + y[k + 1]
                              /\ lo' = lo + MinOf(x[k + 1], y[k + 1]) /\ hi' = hi + MaxOf(x[k + 1], y[k + 1])
                              /\ k' = k + 1 /\ UNCHANGED phase
           ELSE phase' = "center" /\ k' = 0 /\ UNCHANGED <<sx, sy, lo, hi>>
        /\ UNCHANGED <<x, y, sxy, sxx, syy>>
\* deviations times n, so that they are integers
Center == /\ phase = "center" /\ k < Len(x) /\ k' = k + 1
          /\ LET n == Len(x)
                 dx == n * x[k + 1] - sx
                 dy == n * y[k + 1] - sy
             IN sxy' = sxy + dx * dy /\ sxx' = sxx + dx * dx /\ syy' = syy + dy * dy
          /\ UNCHANGED <<x, y, phase, sx, sy, lo, hi>>
Next == Mean \/ Center
Spec == Init /\ [][Next]_vars
Done == phase = "center" /\ k = Len(x)
Right == Done => sxy = Len(x) * Cov(x, y) /\ sxx = Len(x) * Cov(x, x) /\ syy = Len(x) * Cov(y, y)
Jaccard == Done => lo = MinSum(x, y) /\ hi = MaxSum(x, y)
Bounded == Done => /\ Cov(x, y) * Cov(x, y) <= Cov(x, x) * Cov(y, y)
                   /\ ((\A i \in 1..Len(x) : x[i] >= 0 /\ y[i] >= 0) => 0 <= MinSum(x, y) /\ MinSum(x, y) <= MaxSum(x, y))
Symmetric == Done => Cov(x, y) = Cov(y, x) /\ MinSum(x, y) = MinSum(y, x)
Emitted == Done => EmitCase([x |-> x, y |-> y, cov |-> Cov(x, y), vx |-> Cov(x, x), vy |-> Cov(y, y),
                             lo |-> MinSum(x, y), hi |-> MaxSum(x, y)])
=============================================================================

------------------------------ MODULE WelfordLoop ------------------------------
(* C17: the one-pass update of mean and squared deviations, and the sum of    *)
(* the pairwise differences from the sorted data.                             *)
EXTENDS Dispersion, Emit
CONSTANTS Data, Lens, Shift
VARIABLES x, k, mean, m2, srt, sum, total
vars == <<x, k, mean, m2, srt, sum, total>>
Init == /\ \E n \in Lens : x \in [1..n -> {v - Shift : v \in Data}]
        /\ k = 0 /\ mean = <<0, 1>> /\ m2 = <<0, 1>>
        /\ srt = SortSeq(x, LAMBDA a, b : a < b) /\ sum = 0 /\ total = 0
Next == /\ k < Len(x) /\ k' = k + 1
        /\ LET delta == FSub(<<x[k + 1], 1>>, mean)
               m == FAdd(mean, FDiv(delta, <<k + 1, 1>>))
           IN mean' = m /\ m2' = FAdd(m2, FMul(delta, FSub(<<x[k + 1], 1>>, m)))
        /\ sum' = sum + k * srt[k + 1] - total /\ total' = total + srt[k + 1]
        /\ UNCHANGED <<x, srt>>
Spec == Init /\ [][Next]_vars
Prefix == k > 0 => LET y == SubSeq(x, 1, k)
                   IN mean = MeanOf(y) /\ m2 = Frac(DevSq(y), k)
Pairs == k > 0 => 2 * sum = PairSum(SubSeq(srt, 1, k))
Done == k = Len(x)
OrderFree == Done => PairSum(x) = PairSum(srt)
ShiftFree == Done => PairSum(Shifted(x, 5)) = PairSum(x) /\ DevSq(Shifted(x, 5)) = DevSq(x)
Emitted == Done => EmitCase([x |-> x, mean |-> MeanOf(x), var |-> [d \in 1..3 |-> VarOf(x, d - 1)],
                             mad |-> <<MadOf(x, FALSE), MadOf(x, TRUE)>>,
                             rmad |-> <<RmadOf(x, FALSE), RmadOf(x, TRUE)>>,
                             gini |-> <<GiniOf(x, FALSE), GiniOf(x, TRUE)>>])
=============================================================================

------------------------------- MODULE Extrema -------------------------------
(* C04: what the extrema functions return, and the judgement of a recorded    *)
(* call.  ExtremaScan.tla is the scan that computes it.                       *)
EXTENDS Vals

MinVal(x) == Min(Range(x))
MaxVal(x) == Max(Range(x))
FirstIndex(x, v) == Min({i \in 0..(Len(x) - 1) : Elem(x, i) = v})
ArgMin(x) == FirstIndex(x, MinVal(x))
ArgMax(x) == FirstIndex(x, MaxVal(x))

(* Of elements that are equal, but not the same, the first one is returned.   *)
(* e.which: the positions whose element the returned ones are, per output.    *)
TiesFailures(e) ==
    LET a == ArgMin(e.x)
        b == ArgMax(e.x)
        want == CASE e.fn = "minmax" -> <<a, b>>
                  [] e.fn = "min_argmin" -> <<a>>
                  [] e.fn = "max_argmax" -> <<b>>
    IN IF \A i \in DOMAIN want : \E k \in DOMAIN e.which[i] : e.which[i][k] = want[i] THEN {} ELSE {e.fn \o "-tie"}

(* Judging a recorded call: the values of e.out are ranks or indices.         *)
ExtremaFailures(e) ==
    IF "which" \in DOMAIN e THEN TiesFailures(e) ELSE
    LET a == ArgMin(e.x)
        b == ArgMax(e.x)
        lo == MinVal(e.x)
        hi == MaxVal(e.x)
        want == CASE e.fn = "argmin" -> <<a>>
                  [] e.fn = "argmax" -> <<b>>
                  [] e.fn = "minmax" -> <<lo, hi>>
                  [] e.fn = "argminmax" -> <<a, b>>
                  [] e.fn = "min_argmin" -> <<lo, a>>
                  [] e.fn = "max_argmax" -> <<hi, b>>
                  [] e.fn = "peaktopeak" -> <<hi - lo>>
    IN IF e.out = want THEN {} ELSE {e.fn}
=============================================================================

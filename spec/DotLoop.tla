-------------------------------- MODULE DotLoop --------------------------------
(* C15: the composed inner loop: all products of a row into a temporary, then *)
(* the reduction, one row of a batch after the other.                         *)
EXTENDS GenDot, Emit
CONSTANTS PFns, SFns, Data, MaxLen
VARIABLES p, s, x, y, tmp, k, acc
vars == <<p, s, x, y, tmp, k, acc>>
D == {v - 2 : v \in Data}
Init == /\ p \in PFns /\ s \in SFns
        /\ \E n \in 0..MaxLen : x \in [1..n -> D] /\ y \in [1..n -> D]
        /\ (p \in BoolFns => s # "subtract" /\ s # "kbnsum" /\ s # "peaktopeak")
        /\ (p \notin BoolFns => s \notin BoolFns)
        /\ tmp = <<>> /\ k = 0 /\ acc = ODD
Product == /\ Len(tmp) < Len(x)
           /\ tmp' = Append(tmp, Op(p, FALSE, x[Len(tmp) + 1], y[Len(tmp) + 1]))
           /\ UNCHANGED <<p, s, x, y, k, acc>>
First == /\ Len(tmp) = Len(x) /\ k = 0 /\ x # <<>> /\ ~IsGu(s) /\ acc' = tmp[1] /\ k' = 1
         /\ UNCHANGED <<p, s, x, y, tmp>>
Fold == /\ k > 0 /\ k < Len(tmp) /\ acc' = Op(s, p \in BoolFns, acc, tmp[k + 1]) /\ k' = k + 1
        /\ UNCHANGED <<p, s, x, y, tmp>>
Whole == /\ Len(tmp) = Len(x) /\ k = 0 /\ x # <<>> /\ IsGu(s) /\ acc' = Gu(s, tmp) /\ k' = Len(x)
         /\ UNCHANGED <<p, s, x, y, tmp>>
Empty == /\ x = <<>> /\ k = 0 /\ k' = -1 /\ acc' = (IF IsGu(s) THEN ODD ELSE Identity(s))
         /\ UNCHANGED <<p, s, x, y, tmp>>
Next == Product \/ First \/ Fold \/ Whole \/ Empty
Spec == Init /\ [][Next]_vars
Done == k = -1 \/ (x # <<>> /\ k = Len(x))
Reduced == Done => acc = Dot(p, s, x, y)
Partial == k > 0 /\ ~IsGu(s) => acc = Dot(p, s, SubSeq(x, 1, k), SubSeq(y, 1, k))
Emitted == Done => EmitCase([p |-> p, s |-> s, x |-> x, y |-> y, out |-> acc])
=============================================================================

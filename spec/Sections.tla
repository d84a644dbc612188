------------------------------ MODULE Sections ------------------------------
(* C11: a cascade of second-order sections <<b0, b1, b2, a1, a2>> over the    *)
(* integers, as difference equations and as a state-space recurrence.         *)
EXTENDS Vals

At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0

\* y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2], at rest before n = 1
Rest(c, x) ==
    FoldLeft(LAMBDA y, n : Append(y, c[1] * At(x, n) + c[2] * At(x, n - 1) + c[3] * At(x, n - 2)
                                     - c[4] * At(y, n - 1) - c[5] * At(y, n - 2)),
             <<>>, [n \in 1..Len(x) |-> n])
Cascade(sos, x) == FoldLeft(LAMBDA s, c : Rest(c, s), x, sos)

\* The same with a state z = <<z1, z2>>: one sample of one section
SecY(c, z, v) == c[1] * v + z[1]
SecZ(c, z, v) == <<z[2] + c[2] * v - c[4] * SecY(c, z, v), c[3] * v - c[5] * SecY(c, z, v)>>
\* one section over a signal: <<outputs, final state>>
RunSec(c, z0, x) ==
    FoldLeft(LAMBDA acc, v : <<Append(acc[1], SecY(c, acc[2], v)), SecZ(c, acc[2], v)>>,
             <<<<>>, z0>>, x)
\* the cascade: <<outputs, final states>>
RunAll(sos, zi, x) ==
    FoldLeft(LAMBDA acc, k : LET r == RunSec(sos[k], zi[k], acc[1])
                             IN <<r[1], Append(acc[2], r[2])>>,
             <<x, <<>>>>, [k \in 1..Len(sos) |-> k])

SectionsFailures(e) ==
    CASE e.fn = "sosfilter" -> IF e.y = Cascade(e.sos, e.x) THEN {} ELSE {"sosfilter"}
      [] e.fn \in {"sosfilter_ic", "sosfilter_ic_contig"} ->
            LET r == RunAll(e.sos, e.zi, e.x)
            IN (IF e.y = r[1] THEN {} ELSE {e.fn}) \cup (IF e.zf = r[2] THEN {} ELSE {e.fn \o "-state"})
      [] e.fn = "chunks" ->
            IF FlattenSeq(e.parts) = e.whole /\ e.pfinal = e.wfinal THEN {} ELSE {e.of \o "-chunks"}
=============================================================================

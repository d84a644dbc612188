------------------------------ MODULE Histogram ------------------------------
(* C07: what a call of bincount adds to its out array, and the judgement of a *)
(* recorded call on an n-dimensional array along an axis.                     *)
EXTENDS NDim

InRange(v, m) == 0 <= v /\ v < m
\* out after one 1-d call: weight ws[i] is added at xs[i], everything else is dropped
Added(xs, ws, m, out) ==
    [b \in 1..m |-> out[b] + FoldLeft(LAMBDA acc, i : IF xs[i] = b - 1 THEN acc + ws[i] ELSE acc,
                                      0, [i \in 1..Len(xs) |-> i])]

\* without m there is a place for every value up to the largest of the whole array
DefaultM(x) == FoldLeft(LAMBDA a, v : IF v + 1 > a THEN v + 1 ELSE a, 0, x)

\* e: xshape, x, wshape, w (flat; w = <<>> means counting), axis, m (-1: not given), before, after, oshape
Weight(e, xs, idx) == IF e.w = <<>> THEN 1 ELSE e.w[Ravel(e.wshape, idx) + 1]

HistogramFailures(e) ==
    LET nd == Len(e.xshape)
        ax == NormAxis(e.axis, nd)
        n == e.xshape[ax + 1]
        bx == DropAt(e.xshape, ax)
        wax == NormAxis(e.axis, Len(e.wshape))
        bw == IF e.w = <<>> THEN bx ELSE DropAt(e.wshape, wax)
        bs == Bcast(bx, bw)
        oax == NormAxis(e.axis, Len(bs) + 1)
        want == PutAt(bs, oax, IF e.m = -1 THEN DefaultM(e.x) ELSE e.m)
        Want(oi) ==      \* the value at an index of out
            LET bi == DropAt(oi, oax)
                bin == oi[oax + 1]
            IN e.before[Ravel(e.oshape, oi) + 1] + FoldLeft(
                LAMBDA acc, i :
                    IF e.x[Ravel(e.xshape, PutAt(BIndex(bx, bi), ax, i)) + 1] = bin
                    THEN acc + (IF e.w = <<>> THEN 1
                                ELSE e.w[Ravel(e.wshape, PutAt(BIndex(bw, bi), wax, i)) + 1])
                    ELSE acc,
                0, [i \in 1..n |-> i - 1])
    IN IF e.oshape # want THEN {"shape"}
       ELSE IF \E oi \in Indices(e.oshape) : e.after[Ravel(e.oshape, oi) + 1] # Want(oi)
            THEN {IF e.w = <<>> THEN "count" ELSE "weights"} ELSE {}
=============================================================================

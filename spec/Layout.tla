------------------------------- MODULE Layout -------------------------------
(* What a call may do to memory.  Memory is a sequence of buffers, a buffer a *)
(* sequence of cells.  A view [buf, base, bs, cs, cshape] places the element  *)
(* with batch index b and core index c of an array in cell                    *)
(* base + b.bs + c.cs of its buffer.  A call of a function F on input views   *)
(* puts F(slices of the inputs at b), with the slices as they were before the *)
(* call, in the slice of each output at b, for every b (for which the mask    *)
(* holds), and changes no other cell.                                         *)
EXTENDS Vals

\* the offsets of the elements of an array of this shape, in row-major order
RECURSIVE Offsets(_, _)
Offsets(shape, str) ==
    IF shape = <<>> THEN <<0>>
    ELSE LET rest == Offsets(Tail(shape), Tail(str))
         IN FlattenSeq([i \in 1..shape[1] |-> [k \in 1..Len(rest) |-> rest[k] + (i - 1) * str[1]]])

BatchOff(v, bshape) == Offsets(bshape, v.bs)
CoreOff(v) == Offsets(v.cshape, v.cs)

SliceAt(mem, v, off) == LET c == CoreOff(v) IN [k \in 1..Len(c) |-> mem[v.buf][v.base + off + c[k]]]

CellsOfSlice(v, off) == LET c == CoreOff(v) IN {<<v.buf, v.base + off + c[k]>> : k \in 1..Len(c)}
CellsOf(v, bshape) == LET o == BatchOff(v, bshape) IN UNION {CellsOfSlice(v, o[k]) : k \in 1..Len(o)}

Injective(v, bshape) == LET n == Len(BatchOff(v, bshape)) * Len(CoreOff(v))
                        IN Cardinality(CellsOf(v, bshape)) = n

\* the memory after a call: F maps the tuple of input slices to the tuple of output slices
\* (mask: for each batch index in row-major order, whether it is computed)
AfterCall(mem, ins, outs, bshape, mask, F(_)) ==
    [q \in 1..Len(mem) |-> [a \in 1..Len(mem[q]) |->
        LET hits == {<<j, k, c>> \in (1..Len(outs)) \X (1..Len(mask)) \X (1..100) :
                        /\ c <= Len(CoreOff(outs[j])) /\ mask[k] /\ outs[j].buf = q
                        /\ a = outs[j].base + BatchOff(outs[j], bshape)[k] + CoreOff(outs[j])[c]}
        IN IF hits = {} THEN mem[q][a]
           ELSE LET h == CHOOSE h \in hits : TRUE
                IN F([i \in 1..Len(ins) |-> SliceAt(mem, ins[i], BatchOff(ins[i], bshape)[h[2]])])[h[1]][h[3]]]]

(* A recorded call.  refs[k] holds the slices of the inputs at batch index k  *)
(* and the result of a separate call on contiguous copies of them.            *)
CallFailures(e) ==
    LET nb == Len(e.refs)
        bin == [i \in 1..Len(e.ins) |-> BatchOff(e.ins[i], e.bshape)]
        bout == [j \in 1..Len(e.outs) |-> BatchOff(e.outs[j], e.bshape)]
        on == {k \in 1..nb : e.mask[k]}
        written == UNION {UNION {CellsOfSlice(e.outs[j], bout[j][k]) : k \in on} : j \in 1..Len(e.outs)}
    IN  (IF \A k \in on, i \in 1..Len(e.ins) : SliceAt(e.mem, e.ins[i], bin[i][k]) = e.refs[k].ins[i]
         THEN {} ELSE {"slices"})
     \cup (IF \A k \in on, j \in 1..Len(e.outs) : SliceAt(e.after, e.outs[j], bout[j][k]) = e.refs[k].outs[j]
         THEN {} ELSE {"value-depends-on-layout"})
     \cup (IF \A q \in 1..Len(e.mem) : \A a \in 1..Len(e.mem[q]) :
                e.after[q][a] = e.mem[q][a] \/ <<q, a>> \in written
         THEN {} ELSE {"write-outside-output"})

(* Folds: reduce, accumulate and reduceat of a function of two arguments.     *)
(* steps is the sequence of separate calls [a, b, r]; groups gives, for each  *)
(* result, the elements folded.                                               *)
FoldFailures(e) ==
    LET Call(a, b) == LET s == {k \in 1..Len(e.steps) : e.steps[k].a = a /\ e.steps[k].b = b}
                      IN IF s = {} THEN -1 ELSE e.steps[CHOOSE k \in s : TRUE].r
        Fold(g) == FoldLeft(LAMBDA acc, x : Call(acc, x), Head(g), Tail(g))
    IN IF \A k \in 1..Len(e.groups) : Fold(e.groups[k]) = e.out[k] THEN {} ELSE {"fold"}

LayoutFailures(e) == IF e.k = "call" THEN CallFailures(e) ELSE FoldFailures(e)
=============================================================================

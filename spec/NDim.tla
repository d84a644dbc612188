-------------------------------- MODULE NDim --------------------------------
(* Shapes and indices of n-dimensional arrays, in C order.                    *)
EXTENDS Vals
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
\* Position of a multi-index (sequence of 0-based indices) in C order
Ravel(shape, idx) ==
    FoldLeft(LAMBDA acc, j : acc * shape[j] + idx[j], 0, [j \in 1..Len(shape) |-> j])
Unravel(shape, flat) ==
    [j \in 1..Len(shape) |->
        (flat \div Prod(SubSeq(shape, j + 1, Len(shape)))) % shape[j]]
DropAt(s, ax) == SubSeq(s, 1, ax) \o SubSeq(s, ax + 2, Len(s))      \* ax is 0-based
PutAt(s, ax, v) == SubSeq(s, 1, ax) \o <<v>> \o SubSeq(s, ax + 1, Len(s))
SetAt(s, ax, v) == [s EXCEPT ![ax + 1] = v]
\* A Python axis for an array of nd dimensions: 0-based, or -1 if out of bounds
NormAxis(ax, nd) == IF ax < -nd \/ ax >= nd THEN -1 ELSE IF ax < 0 THEN ax + nd ELSE ax
\* Broadcasting of two shapes; <<-1>> if they do not match
PadLeft(s, n) == [j \in 1..n |-> IF j <= n - Len(s) THEN 1 ELSE s[j - (n - Len(s))]]
Bcast(a, b) ==
    LET n == MaxOf(Len(a), Len(b))
        p == PadLeft(a, n)
        q == PadLeft(b, n)
    IN IF \A j \in 1..n : p[j] = q[j] \/ p[j] = 1 \/ q[j] = 1
       THEN [j \in 1..n |-> IF p[j] = 1 THEN q[j] ELSE p[j]]
       ELSE <<-1>>
\* The index into an array of shape s that a broadcast index reads
BIndex(s, idx) ==
    [j \in 1..Len(s) |-> IF s[j] = 1 THEN 0 ELSE idx[j + Len(idx) - Len(s)]]
Indices(shape) == {Unravel(shape, f) : f \in 0..(Prod(shape) - 1)}
=============================================================================

------------------------------ MODULE Placement ------------------------------
(* C08: a function of one (or two broadcast) elements that returns n values   *)
(* puts them along a new axis of the result.  Also the digits of a number in  *)
(* a base, and the judgement of recorded calls.                               *)
EXTENDS NDim, BigNat

OutShape(bshape, n, axis) ==
    LET ax == NormAxis(axis, Len(bshape) + 1)
    IN IF n < 0 \/ ax = -1 THEN <<-1>> ELSE PutAt(bshape, ax, n)

\* The element of the batch and the position along the new axis of each result cell
CellSource(bshape, n, axis, flat) ==
    LET ax == NormAxis(axis, Len(bshape) + 1)
        oi == Unravel(PutAt(bshape, ax, n), flat)
    IN <<Ravel(bshape, DropAt(oi, ax)), oi[ax + 1]>>

\* Digits: k = sum of ds[i] * base^(i-1) + top * base^n with every digit below base.
\* The quotient top is a witness that the recorder supplies.
DigitsOK(k, base, ds, top) ==
    /\ \A i \in 1..Len(ds) : Less(ds[i], base)
    /\ Horner(ds, base, top) = k

PlacementFailures(e) ==
    IF e.fn = "convert_to_base" THEN
        (IF \E i \in 1..Len(e.digits) : e.digits[i] = <<-1>> THEN {"digit-negative"}
         ELSE IF DigitsOK(e.k, e.base, e.digits, e.top) THEN {} ELSE {"digits"})
    ELSE IF e.fn = "one_hot" THEN
        (IF e.out = [i \in 1..e.n |-> IF i - 1 = e.k THEN 1 ELSE 0] THEN {} ELSE {"one_hot"})
    ELSE {"unknown-event"}
=============================================================================

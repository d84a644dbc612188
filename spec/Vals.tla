-------------------------------- MODULE Vals --------------------------------
(* Values of the specification.  A value is an integer; three integers stand  *)
(* for the special floating-point values.  Finite values are within +-10^9,   *)
(* so the order of the integers is the order of the values, NaN excepted.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

NAN  == 2000000001
PINF == 2000000000
NINF == -2000000000
ODD  == 2000000003      \* "the implementation returned something not representable"

IsNaN(v) == v = NAN
IsInf(v) == v \in {PINF, NINF}
IsFin(v) == v >= -1000000000 /\ v <= 1000000000

\* IEEE 754 comparisons
FLt(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ a < b
FLe(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ a <= b
FEq(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ a = b

MinOf(a, b) == IF a <= b THEN a ELSE b
MaxOf(a, b) == IF a >= b THEN a ELSE b
AbsOf(a) == IF a < 0 THEN -a ELSE a

\* All sequences over S whose length is in lens
SeqsOf(S, lens) == UNION {[1..n -> S] : n \in lens}

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

\* 0-based indices, as the implementation reports them
Elem(x, i) == x[i + 1]
=============================================================================

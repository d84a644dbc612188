-------------------------------- MODULE BigNat --------------------------------
(* Natural numbers beyond TLC's 32 bits: little-endian sequences of limbs in  *)
(* base 2^12, without leading (that is, trailing in the sequence) zeros.      *)
EXTENDS Integers, Sequences, SequencesExt
LimbBase == 4096
RECURSIVE Trim(_), Carry(_, _, _)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
\* Normalizes limbs that are too large
Carry(a, i, c) ==
    IF i > Len(a)
    THEN IF c = 0 THEN <<>> ELSE <<c % LimbBase>> \o Carry(a, i + 1, c \div LimbBase)
    ELSE <<(a[i] + c) % LimbBase>> \o Carry(a, i + 1, (a[i] + c) \div LimbBase)
Norm(a) == Trim(Carry(a, 1, 0))
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
BMax(a, b) == IF a > b THEN a ELSE b
Add(a, b) == Norm([i \in 1..BMax(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)])
Mul(a, b) ==
    IF a = <<>> \/ b = <<>> THEN <<>>
    ELSE Norm([i \in 1..(Len(a) + Len(b)) |->
        FoldLeft(LAMBDA acc, j : acc + Limb(a, j) * (IF i - j + 1 >= 1 THEN Limb(b, i - j + 1) ELSE 0),
                 0, [j \in 1..i |-> j])])
Less(a, b) ==      \* a < b, both trimmed
    \/ Len(a) < Len(b)
    \/ /\ Len(a) = Len(b)
       /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in (i + 1)..Len(a) : a[j] = b[j]
OfNat(n) == Norm(<<n>>)
\* Horner's rule for digits, least significant first, plus top * base^n
Horner(ds, base, top) == FoldRight(LAMBDA dg, acc : Add(Mul(acc, base), dg), ds, top)
=============================================================================

------------------------------ MODULE DigitLoop ------------------------------
(* C08: the digit loop of convert_to_base.                                    *)
EXTENDS Placement, Emit
CONSTANTS Numbers, Bases, NDigits
VARIABLES k0, base, n, k, ds
vars == <<k0, base, n, k, ds>>
Init == k0 \in Numbers /\ base \in Bases /\ n \in NDigits /\ k = k0 /\ ds = <<>>
Digit == /\ Len(ds) < n
         /\ ds' = Append(ds, k % base)
         /\ k' = k \div base
         /\ UNCHANGED <<k0, base, n>>
Next == Digit
Spec == Init /\ [][Next]_vars
Value(s) == FoldRight(LAMBDA dg, acc : acc * base + dg, s, 0)
Expansion == k0 = Value(ds) + k * base ^ Len(ds)
InBase == \A i \in 1..Len(ds) : 0 <= ds[i] /\ ds[i] < base
Done == Len(ds) = n
Modulo == Done => Value(ds) = k0 % (base ^ n)
\* the arithmetic used to judge large numbers agrees with the integers
BigAgrees == Done => DigitsOK(OfNat(k0), OfNat(base), [i \in 1..n |-> OfNat(ds[i])], OfNat(k))
Emitted == Done => EmitCase([k |-> k0, base |-> base, n |-> n, ds |-> ds])
=============================================================================

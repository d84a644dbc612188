----------------------------- MODULE ExtremaScan -----------------------------
(* C04: the extrema functions as one scan over a sequence.                    *)
(* The state is that of the loops of the implementation: the next index and   *)
(* the running minimum and maximum with their indices.  The invariant says    *)
(* what the running values mean, in terms of the definitions of Extrema.      *)
EXTENDS Extrema, Emit

CONSTANTS Ranks, MaxLen
VARIABLES x, k, mn, amn, mx, amx
vars == <<x, k, mn, amn, mx, amx>>

Init == /\ x \in SeqsOf(Ranks, 1..MaxLen)
        /\ k = 1
        /\ mn = Elem(x, 0) /\ mx = Elem(x, 0)
        /\ amn = 0 /\ amx = 0

ScanStep ==
    /\ k < Len(x)
    /\ k' = k + 1
    /\ IF Elem(x, k) < mn THEN mn' = Elem(x, k) /\ amn' = k ELSE UNCHANGED <<mn, amn>>
    /\ IF Elem(x, k) > mx THEN mx' = Elem(x, k) /\ amx' = k ELSE UNCHANGED <<mx, amx>>
    /\ UNCHANGED x

Next == ScanStep
Spec == Init /\ [][Next]_vars

Prefix == SubSeq(x, 1, k)
RunningIsExtremum ==
    /\ amn = ArgMin(Prefix) /\ mn = MinVal(Prefix)
    /\ amx = ArgMax(Prefix) /\ mx = MaxVal(Prefix)
\* Consequences a user relies on
Consistent == /\ Elem(x, amn) = mn /\ Elem(x, amx) = mx
              /\ mn <= mx
              /\ (mn = mx => amn = 0 /\ amx = 0)
Emitted == k = Len(x) =>
    EmitCase([x |-> x, mn |-> mn, mx |-> mx, amn |-> amn, amx |-> amx])

=============================================================================

------------------------------ MODULE RelayLoop ------------------------------
(* C10: the relay fed sample by sample, over several calls.                   *)
EXTENDS Hysteresis, Emit
CONSTANTS Xs, Thresholds, MaxLen
VARIABLES lo, hi, y0, y, x, outs, cuts
vars == <<lo, hi, y0, y, x, outs, cuts>>
LV == 10
HV == 20
Init == /\ lo \in Thresholds /\ hi \in {t \in Thresholds : t >= lo}
        /\ y0 \in {LV, HV, 30}
        /\ y = y0 /\ x = <<>> /\ outs = <<>> /\ cuts = <<>>
Feed == /\ Len(x) < MaxLen
        /\ \E v \in Xs : /\ x' = Append(x, v)
                         /\ y' = RelayStep(y, v, lo, hi, LV, HV)
                         /\ outs' = Append(outs, y')
        /\ UNCHANGED <<lo, hi, y0, cuts>>
NewCall == /\ cuts = <<>> /\ cuts' = <<Len(x)>>
           /\ UNCHANGED <<lo, hi, y0, y, x, outs>>
Next == Feed \/ NewCall
Spec == Init /\ [][Next]_vars
Defined == outs = RelayOut(y0, x, lo, hi, LV, HV)
OnlyValues == \A k \in 1..Len(outs) : outs[k] \in {LV, HV, y0}
\* It switches only outside the interval between the thresholds
Switches == [][y' # y => (x'[Len(x')] < lo /\ y' = LV) \/ (x'[Len(x')] > hi /\ y' = HV)]_vars
Emitted == Len(x) = MaxLen /\ cuts # <<>> =>
    EmitCase([x |-> x, lo |-> lo, hi |-> hi, y0 |-> y0, outs |-> outs, cuts |-> cuts])
=============================================================================

----------------------------- MODULE CascadeLoop -----------------------------
(* C11: the filter as a machine that passes one sample through one section    *)
(* per step; the call may end after any sample and continue from its state.   *)
EXTENDS Sections, Emit
CONSTANTS Xs, MaxLen, MaxSections, ZeroState, MaxCuts
VARIABLES sos, zi, z, x, y, k, v, cuts
vars == <<sos, zi, z, x, y, k, v, cuts>>

\* Every coefficient occurs alone and together with the others
Cs == {<<2, 0, 0, 0, 0>>, <<0, 3, 0, 0, 0>>, <<0, 0, 2, 0, 0>>, <<1, 0, 0, 2, 0>>, <<1, 0, 0, 0, -2>>,
       <<1, -1, 2, 1, -1>>, <<2, 1, -3, -1, 2>>, <<0, 1, -1, 1, 3>>}
Zs == IF ZeroState THEN {<<0, 0>>} ELSE {<<1, 0>>, <<0, -1>>, <<2, 5>>}

Init == /\ \E m \in 0..MaxSections : sos \in [1..m -> Cs] /\ zi \in [1..m -> Zs]
        /\ z = zi /\ x = <<>> /\ y = <<>> /\ k = 0 /\ v = 0 /\ cuts = <<>>
Take == /\ k = 0 /\ Len(x) < MaxLen
        /\ \E s \in Xs : x' = Append(x, s - 3) /\ v' = s - 3
        /\ k' = 1 /\ UNCHANGED <<sos, zi, z, y, cuts>>
Section == /\ k >= 1 /\ k <= Len(sos)
           /\ v' = SecY(sos[k], z[k], v)
           /\ z' = [z EXCEPT ![k] = SecZ(sos[k], @, v)]
           /\ k' = k + 1 /\ UNCHANGED <<sos, zi, x, y, cuts>>
Put == /\ k = Len(sos) + 1 /\ y' = Append(y, v) /\ k' = 0
       /\ UNCHANGED <<sos, zi, z, x, v, cuts>>
NewCall == /\ k = 0 /\ Len(cuts) < MaxCuts
           /\ cuts' = Append(cuts, Len(x))
           /\ UNCHANGED <<sos, zi, z, x, y, k, v>>
Next == Take \/ Section \/ Put \/ NewCall
Spec == Init /\ [][Next]_vars

\* At the end of every sample: outputs and states are those of the definition
StateSpace == k = 0 => LET r == RunAll(sos, zi, x) IN y = r[1] /\ z = r[2]
Difference == k = 0 /\ ZeroState => y = Cascade(sos, x)
Causal == [][IsPrefix(y, y')]_vars
Emitted == k = 0 /\ Len(x) = MaxLen /\ Len(cuts) = MaxCuts =>
    EmitCase([sos |-> sos, zi |-> zi, x |-> x, y |-> y, zf |-> z, cuts |-> cuts])
=============================================================================

------------------------------ MODULE SweepLoop ------------------------------
(* C14: the argument sweeps over the line from -inf to +inf while the         *)
(* parameters stay; the regions succeed one another in order, and the value   *)
(* has no jumps but those of step.                                            *)
EXTENDS Piecewise, Emit
CONSTANTS Fn, MaxBreak, ValSel
VARIABLES p, v, i, ys
vars == <<p, v, i, ys>>

Xs == <<NINF>> \o [k \in 1..(4 * MaxBreak + 3) |-> k - 2] \o <<PINF, NAN>>
SemiXs == [k \in 1..(4 * MaxBreak + 2) |-> k - 1] \o <<PINF, NAN>>
Line == IF Fn \in Semi THEN SemiXs ELSE IF Fn \in {"step", "deadzone"} THEN SubSeq(Xs, 1, Len(Xs) - 1) ELSE Xs
\* Breakpoints are even, so that the line has points between them
Breaks == {2 * k : k \in 0..MaxBreak}
NB == CASE Fn = "step" -> 1 [] Fn = "trapezoid_pulse" -> 4 [] Fn \in Semi -> 1 [] Fn = "nan_to_num" -> 0 [] OTHER -> 2
NV == CASE Fn = "step" -> 3 [] Fn \in {"trapezoid_pulse", "nan_to_num"} -> 1 [] Fn = "deadzone" -> 0 [] OTHER -> 2
Vs == {ValSel - 5, ValSel - 2, 3}

Init == /\ p \in [1..NB -> Breaks] /\ v \in [1..NV -> Vs]
        /\ (Fn = "deadzone" => p[1] <= p[2])
        /\ i = 0 /\ ys = <<>>
Sweep == /\ i < Len(Line) /\ i' = i + 1
         /\ ys' = Append(ys, {InRegion(Fn, r, p, v, Line[i']) : r \in Regions(Fn, p, Line[i'])})
         /\ UNCHANGED <<p, v>>
Next == Sweep
Spec == Init /\ [][Next]_vars

Le(a, b) == a[1] * b[2] <= b[1] * a[2]
Fin(f) == IsFin(f[1])
Vals2 == IF Fn \in Ramps \/ Fn \in Semi THEN {v[1], v[2]} ELSE IF Fn = "trapezoid_pulse" THEN {0, v[1]} ELSE {}
\* Ramps stay between their end values
Bounded == Vals2 # {} => \A k \in 1..Len(ys) : \A f \in ys[k] : Fin(f) =>
               Le(<<Min(Vals2), 1>>, f) /\ Le(f, <<Max(Vals2), 1>>)
\* The ramps do not turn
Up == (Fn \in Ramps \/ Fn \in Semi) /\ v[1] <= v[2]
Down == (Fn \in Ramps \/ Fn \in Semi) /\ v[1] >= v[2]
Monotone == \A k \in 1..(Len(ys) - 1) : \A f \in ys[k], g \in ys[k + 1] :
                Fin(f) /\ Fin(g) =>
                  /\ (Up \/ Fn = "deadzone" => Le(f, g) \/ Cardinality(ys[k]) > 1 \/ Cardinality(ys[k + 1]) > 1)
                  /\ (Down /\ Fn # "deadzone" => Le(g, f) \/ Cardinality(ys[k]) > 1 \/ Cardinality(ys[k + 1]) > 1)
Defined == i > 0 => (ys[i] # {} \/ IsNaN(Line[i]))
Alt(S) == SetToSeq(S)
Emitted == i = Len(Line) =>
    EmitCase([p |-> p, v |-> v, x |-> Line,
              num |-> [k \in 1..Len(ys) |-> [j \in 1..Len(Alt(ys[k])) |-> Alt(ys[k])[j][1]]],
              den |-> [k \in 1..Len(ys) |-> [j \in 1..Len(Alt(ys[k])) |-> Alt(ys[k])[j][2]]],
              flat |-> [k \in 1..Len(ys) |-> Regions(Fn, p, Line[k]) \cap {"ramp", "rise", "fall"} = {}]])
=============================================================================

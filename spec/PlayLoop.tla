------------------------------ MODULE PlayLoop ------------------------------
(* C10: the environment feeds samples to a bank of play operators, and may    *)
(* end the call at any sample and start the next one from the final state.    *)
EXTENDS Hysteresis, Emit
CONSTANTS Xs, Hs, Inits, Ws, M, MaxLen
VARIABLES hs, ws, y0, ys, x, outs, cuts
vars == <<hs, ws, y0, ys, x, outs, cuts>>

Init == /\ hs \in [1..M -> Hs]
        /\ ws \in [1..M -> Ws]
        /\ y0 \in [1..M -> Inits]
        /\ ys = y0 /\ x = <<>> /\ outs = <<>> /\ cuts = <<>>
Feed == /\ Len(x) < MaxLen
        /\ \E v \in Xs :
            /\ x' = Append(x, v)
            /\ ys' = [j \in 1..M |-> Play(ys[j], v, hs[j])]
            /\ outs' = Append(outs, SumSeq([j \in 1..M |-> ws[j] * ys'[j]]))
        /\ UNCHANGED <<hs, ws, y0, cuts>>
\* The call returns; the next one starts from its final state
NewCall == /\ Len(cuts) < 2 /\ Len(x) <= MaxLen
           /\ LastOr(cuts, 0) <= Len(x)
           /\ cuts' = Append(cuts, Len(x))
           /\ UNCHANGED <<hs, ws, y0, ys, x, outs>>
Next == Feed \/ NewCall
Spec == Init /\ [][Next]_vars

\* The output follows the input within half the band
Band == x # <<>> => \A j \in 1..M : AbsOf(x[Len(x)] - ys[j]) <= hs[j]
\* Chunking does not matter, and the outputs are those of the definition
Chunkless == outs = SumOut(x, ws, hs, y0) /\ ys = SumFinal(x, hs, y0)
\* An operator moves only when pushed, in the direction of the push, and just enough
Pushed == [][Feed => \A j \in 1..M :
               LET v == x'[Len(x')] IN
               /\ (ys'[j] > ys[j] => ys'[j] = v - hs[j])
               /\ (ys'[j] < ys[j] => ys'[j] = v + hs[j])
               /\ (ys'[j] = ys[j] <=> AbsOf(v - ys[j]) <= hs[j])]_vars
Causal == [][IsPrefix(outs, outs')]_vars
Emitted == Len(x) = MaxLen /\ Len(cuts) = 2 =>
    EmitCase([x |-> x, hs |-> hs, ws |-> ws, y0 |-> y0, outs |-> outs, ys |-> ys, cuts |-> cuts])
=============================================================================

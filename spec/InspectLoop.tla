----------------------------- MODULE InspectLoop -----------------------------
(* Prints the core dimensions of each argument of a gufunc out of the flat    *)
(* list of all, as ufunc_inspector does.  The list is made when the signature *)
(* is read, one dimension after the other.  Fault:                            *)
(*   "offset"  the dimensions of an argument are taken from the number of     *)
(*             arguments before it, not of dimensions                         *)
(*   "again"   a dimension seen before gets a new number                      *)
EXTENDS Inspect, Emit
CONSTANTS MaxIn, MaxDims, Fault
VARIABLES sig, nin, arg, j, seen, flat, numdims, offs, pc, out
vars == <<sig, nin, arg, j, seen, flat, numdims, offs, pc, out>>

D(n, q) == [n |-> n, q |-> q]
Names == {D("a", FALSE), D("b", FALSE), D("p", TRUE), D("2", FALSE), D("3", FALSE)}
Args == UNION {[1..k -> Names] : k \in 0..MaxDims}
Fixed == [n \in {"2", "3"} |-> IF n = "2" THEN 2 ELSE 3]

Init == /\ nin \in 1..MaxIn
        /\ sig \in [1..nin + 1 -> Args]
        /\ All(sig) # <<>>
        /\ arg = 1 /\ j = 1 /\ seen = <<>> /\ flat = <<>> /\ numdims = <<>> /\ offs = <<>>
        /\ pc = "read" /\ out = <<>>

Known(d) == \E k \in DOMAIN seen : seen[k].n = d.n
Number(d) == (CHOOSE k \in DOMAIN seen : seen[k].n = d.n /\ (Fault = "again" \/ \A i \in 1..k - 1 : seen[i].n # d.n)) - 1

Read == /\ pc = "read" /\ arg <= Len(sig) /\ j <= Len(sig[arg])
        /\ LET d == sig[arg][j]
           IN IF Known(d) /\ Fault # "again"
              THEN flat' = Append(flat, Number(d)) /\ UNCHANGED seen
              ELSE seen' = Append(seen, d) /\ flat' = Append(flat, Len(seen))
        /\ j' = j + 1
        /\ UNCHANGED <<sig, nin, arg, numdims, offs, pc, out>>
NextArg == /\ pc = "read" /\ arg <= Len(sig) /\ j > Len(sig[arg])
           /\ numdims' = Append(numdims, Len(sig[arg]))
           /\ offs' = Append(offs, Len(flat) - Len(sig[arg]))
           /\ arg' = arg + 1 /\ j' = 1
           /\ UNCHANGED <<sig, nin, seen, flat, pc, out>>
Start == /\ pc = "read" /\ arg > Len(sig)
         /\ pc' = "print" /\ arg' = 1 /\ j' = 0 /\ out' = <<>>
         /\ UNCHANGED <<sig, nin, seen, flat, numdims, offs>>

From(k) == IF Fault = "offset" THEN k - 1 ELSE offs[k]
Open == /\ pc = "print" /\ arg <= Len(sig) /\ j = 0
        /\ out' = Append(out, <<>>)
        /\ j' = 1
        /\ UNCHANGED <<sig, nin, arg, seen, flat, numdims, offs, pc>>
Write == /\ pc = "print" /\ arg <= Len(sig) /\ j \in 1..numdims[arg]
         /\ out' = [out EXCEPT ![arg] = Append(@, IF From(arg) + j \in DOMAIN flat THEN flat[From(arg) + j] ELSE -1)]
         /\ j' = j + 1
         /\ UNCHANGED <<sig, nin, arg, seen, flat, numdims, offs, pc>>
Close == /\ pc = "print" /\ arg <= Len(sig) /\ j > numdims[arg]
         /\ j' = 0
         /\ arg' = arg + 1
         /\ pc' = IF arg = Len(sig) THEN "done" ELSE "print"
         /\ UNCHANGED <<sig, nin, seen, flat, numdims, offs, out>>

Next == Read \/ NextArg \/ Start \/ Open \/ Write \/ Close
Spec == Init /\ [][Next]_vars

Done == pc = "done"
Right == Done => /\ out = DimIxs(sig) /\ numdims = NumDims(sig) /\ offs = Offsets(sig)
                 /\ Len(seen) = Len(Dims(sig)) /\ seen = Dims(sig)
\* every number that is printed is that of a dimension, and all of them are printed
Covered == Done => {out[k][i] : <<k, i>> \in {<<a, b>> \in (1..Len(sig)) \X (1..MaxDims) : b <= Len(sig[a])}} = 0..Len(seen) - 1
Emitted == Done => EmitCase([nin |-> nin, sig |-> sig])
=============================================================================

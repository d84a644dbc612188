---------------------------- MODULE DispatchScan ----------------------------
(* C21: a call looks for the loop of exactly its types, then scans the table  *)
(* for the first loop to which all its arguments convert.                     *)
EXTENDS Dispatch, Emit
CONSTANTS Lo, Hi,       \* the tables
          Fault         \* "none", or a fault that the invariants must notice
VARIABLES t, a, k, phase
vars == <<t, a, k, phase>>
Loops == Tables[t].loops
NIn(i) == Len(Tables[i].loops[1][1])
Bases(i) == {Tables[i].loops[q][1] : q \in DOMAIN Tables[i].loops} \cup {[j \in 1..NIn(i) |-> c] : c \in Types}
Init == /\ t \in Lo..(IF Hi < Len(Tables) THEN Hi ELSE Len(Tables))
        /\ a \in UNION {{[b EXCEPT ![j] = c] : j \in 1..NIn(t), c \in Types} : b \in Bases(t)}
        /\ k = 1 /\ phase = "exact"
Hit == IF phase = "exact" THEN Loops[k][1] = a
       ELSE Accepts(Loops[k], a, IF Fault = "object" THEN 1 ELSE Len(Loops))
Step == /\ phase # "done" /\ k <= Len(Loops)
        /\ IF Hit THEN phase' = "done" /\ UNCHANGED k ELSE k' = k + 1 /\ UNCHANGED phase
        /\ UNCHANGED <<t, a>>
Again == /\ phase = "exact" /\ k > Len(Loops)
         /\ phase' = "cast" /\ k' = 1 /\ UNCHANGED <<t, a>>
None == /\ phase = "cast" /\ k > Len(Loops)
        /\ phase' = "done" /\ k' = 0 /\ UNCHANGED <<t, a>>
Next == Step \/ Again \/ None
Spec == Init /\ [][Next]_vars
Done == phase = "done"
Right == Done => k = Resolve(Loops, a)
\* conversions lose nothing, and an exact loop serves its own types
Sound == Done /\ k # 0 => \A j \in DOMAIN a : CanCast(a[j], Loops[k][1][j])
Own == Done /\ (\E q \in DOMAIN Loops : Loops[q][1] = a) => Loops[k][1] = a
\* numbers are never boxed
NoBoxing == Done /\ k # 0 /\ (\A j \in DOMAIN a : a[j] # "O") /\ Len(Loops) > 1 =>
            \A j \in DOMAIN a : Loops[k][1][j] # "O"
\* no two loops of a table take the same types
Distinct == k = 1 /\ phase = "exact" /\ a = Loops[1][1] => \A q, r \in DOMAIN Loops : Loops[q][1] = Loops[r][1] => q = r
\* the tables themselves are emitted once, with the conversions
Own0 == k = 1 /\ phase = "exact" /\ a = Loops[1][1]
Listed == Own0 => EmitCase([tab |-> 1, t |-> t, names |-> Tables[t].names, loops |-> Loops,
                            cast |-> [x \in Types |-> [y \in Types |-> CanCast(x, y)]]])
Emitted == Done => EmitCase([t |-> t, a |-> a, in |-> InTypes(Loops, a), out |-> OutTypes(Loops, a),
                             w |-> [n \in DOMAIN Tables[t].names |-> Wrapper(Tables[t].names[n], Loops, a)]])
=============================================================================

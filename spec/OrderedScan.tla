----------------------------- MODULE OrderedScan -----------------------------
(* C05: the pairwise scan of ordered and the scan of all_same, side by side,  *)
(* each with its early exit.                                                  *)
EXTENDS Ordered, Emit
CONSTANTS Ranks, MaxLen
VARIABLES x, op, k, ord, same
vars == <<x, op, k, ord, same>>
Init == /\ x \in SeqsOf(Ranks \cup {NAN}, 0..MaxLen)
        /\ op \in Ops
        /\ k = 1
        /\ ord = TRUE /\ same = TRUE
Step == /\ k < Len(x)
        /\ ord' = (ord /\ Sat(x[k], op, x[k + 1]))
        /\ same' = (same /\ FEq(x[k + 1], x[1]))
        /\ k' = k + 1
        /\ UNCHANGED <<x, op>>
Next == Step
Spec == Init /\ [][Next]_vars
Done == k >= Len(x)
HasNaN == \E i \in 1..Len(x) : x[i] = NAN
Prefix == IF k > Len(x) THEN x ELSE SubSeq(x, 1, k)
PrefixRight == ord = IsOrdered(Prefix, op) /\ same = AllSame(Prefix)
\* For the transitive relations, adjacent order is order of all pairs
Transitive == Done /\ ord /\ ~HasNaN /\ op \in {"LT", "LE", "EQ", "GT", "GE"} =>
    \A i, j \in 1..Len(x) : i < j => Sat(x[i], op, x[j])
SameIsOrderedEq == Done /\ ~HasNaN => (same <=> IsOrdered(x, "EQ"))
Emitted == Done => EmitCase([x |-> x, op |-> op, ord |-> ord, same |-> same, nan |-> HasNaN])
=============================================================================

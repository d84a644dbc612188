------------------------------ MODULE Percentile ------------------------------
(* C06: percentileofscore as a counting loop over unsorted data.              *)
EXTENDS Search, Emit
CONSTANTS Ranks, MaxLen
VARIABLES x, s, k, lt, eq
vars == <<x, s, k, lt, eq>>
Init == x \in SeqsOf(Ranks \cup {NAN}, 0..MaxLen) /\ s \in Ranks /\ k = 0 /\ lt = 0 /\ eq = 0
Step == /\ k < Len(x)
        /\ k' = k + 1
        /\ lt' = lt + (IF FLt(x[k + 1], s) THEN 1 ELSE 0)
        /\ eq' = eq + (IF FEq(x[k + 1], s) THEN 1 ELSE 0)
        /\ UNCHANGED <<x, s>>
Next == Step
Spec == Init /\ [][Next]_vars
Done == k = Len(x)
Counting == LET p == SubSeq(x, 1, k) IN lt = CountLess(p, s) /\ eq = CountEq(p, s)
Bounds == Done => \A kind \in Kinds :
    /\ 0 <= TwiceRank(x, s, kind) /\ TwiceRank(x, s, kind) <= 2 * Len(x)
    /\ TwiceRank(x, s, "strict") <= TwiceRank(x, s, kind)
    /\ TwiceRank(x, s, kind) <= TwiceRank(x, s, "weak")
Emitted == Done => EmitCase([x |-> x, s |-> s, two |-> [kind \in Kinds |-> TwiceRank(x, s, kind)]])
=============================================================================

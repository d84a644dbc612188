----------------------------- MODULE Resources -----------------------------
(* What a call may hold when it has ended, and what it does when it cannot    *)
(* have the memory it asks for.                                               *)
EXTENDS Naturals, Integers, Sequences

\* the blocks in use after each of a number of times that the same is done: no block more at each of the times
Grows(b, reps) == Len(b) > 1 /\ \A k \in 1..Len(b) - 1 : b[k + 1] >= b[k] + reps
\* references to the same things after each time: not always more, not always fewer
Drifts(r) == Len(r) > 1 /\ \/ \A k \in 1..Len(r) - 1 : r[k + 1] > r[k]
                           \/ \A k \in 1..Len(r) - 1 : r[k + 1] < r[k]
\* blocks that the library asked for during the call and did not give back: none, at one of the times
Kept(own) == Len(own) > 0 /\ \A k \in 1..Len(own) : own[k] > 0

\* the outcome of a call one of whose requests was refused
Reported(hit, err, base, same) == IF hit THEN err = "MemoryError" \/ (err = base /\ same) ELSE err = base /\ same

ResourcesFailures(e) ==
    CASE e.k = "steady" ->
            (IF Grows(e.blocks, e.reps) THEN {"grows"} ELSE {})
            \cup (IF Drifts(e.refs) THEN {"references-drift"} ELSE {})
            \cup (IF Kept(e.own) THEN {"own-blocks-kept"} ELSE {})
      [] e.k = "fault" ->
            (IF Grows(e.blocks, e.reps) THEN {"grows-after-refusal"} ELSE {})
            \cup (IF Drifts(e.refs) THEN {"references-drift-after-refusal"} ELSE {})
            \cup (IF Kept(e.own) THEN {"own-blocks-kept-after-refusal"} ELSE {})
            \cup (IF \A k \in 1..Len(e.err) : Reported(e.hit[k], e.err[k], e.base, e.same[k]) THEN {} ELSE {"refusal-not-reported"})
            \cup (IF e.after THEN {} ELSE {"call-after-refusal"})
      [] e.k = "died" -> {"process-died"}
      [] OTHER -> {"unknown-event"}
=============================================================================

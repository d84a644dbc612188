------------------------------ MODULE UnwrapLoop ------------------------------
(* C12: unwrapping as a machine that follows a signal sample by sample.       *)
EXTENDS Signals, Emit
CONSTANTS Xs, Halves, MaxLen
VARIABLES half, x, y, i
vars == <<half, x, y, i>>
Sig == {v - 9 : v \in Xs} \cup {NAN, PINF}
Init == half \in Halves /\ x \in SeqsOf(Sig, 0..MaxLen) /\ y = <<>> /\ i = 1
Follow == /\ i <= Len(x)
          /\ \E v \in (IF i = 1 THEN {x[1]}
                       ELSE IF ~IsFin(x[i]) \/ ~IsFin(y[i - 1]) THEN {NAN}
                       ELSE UnwrapNext(y[i - 1], x[i], half)) : y' = Append(y, v)
          /\ i' = i + 1 /\ UNCHANGED <<half, x>>
Next == Follow
Spec == Init /\ [][Next]_vars
WholePeriods == \A j \in 1..Len(y) : IsFin(y[j]) => (AbsOf(y[j] - x[j]) % (2 * half)) = 0
SmallSteps == \A j \in 2..Len(y) : IsFin(y[j]) /\ IsFin(y[j - 1]) => AbsOf(y[j] - y[j - 1]) <= half
Congruent == UnwrapAllowed(SubSeq(x, 1, Len(y)), half, y)
Emitted == i = Len(x) + 1 => EmitCase([x |-> x, half |-> half, y |-> y])
=============================================================================

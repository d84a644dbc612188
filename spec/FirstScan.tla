------------------------------ MODULE FirstScan ------------------------------
(* C03: the scan for the first match, one comparison per step.                *)
EXTENDS First, Emit
CONSTANTS Ranks, MaxLen
VARIABLES x, op, t, k, res
vars == <<x, op, t, k, res>>

Pending == -2
Values == Ranks \cup {NAN}

Init == /\ x \in SeqsOf(Values, 0..MaxLen)
        /\ op \in Ops
        /\ t \in Values
        /\ k = 0
        /\ res = Pending

Match == k < Len(x) /\ res = Pending /\ Sat(Elem(x, k), op, t)
         /\ res' = k /\ k' = k + 1 /\ UNCHANGED <<x, op, t>>
Mismatch == k < Len(x) /\ res = Pending /\ ~Sat(Elem(x, k), op, t)
            /\ k' = k + 1 /\ UNCHANGED <<x, op, t, res>>
Exhausted == k = Len(x) /\ res = Pending
             /\ res' = -1 /\ UNCHANGED <<x, op, t, k>>
Next == Match \/ Mismatch \/ Exhausted
Spec == Init /\ [][Next]_vars

\* Nothing before k matches, except a match just found
NoneBefore == \A i \in 0..(k - 1) : Sat(Elem(x, i), op, t) => res = i
Right == res # Pending => res = ArgFirst(x, op, t) /\ k = Compared(x, op, t)
\* The relations are related: complement (without NaN) and mirror image
Complement == /\ op = "LT" /\ t # NAN => \A i \in 1..Len(x) :
                    x[i] # NAN => (Sat(x[i], "LT", t) <=> ~Sat(x[i], "GE", t))
              /\ \A i \in 1..Len(x) : Sat(x[i], "EQ", t) <=> ~Sat(x[i], "NE", t)
Emitted == res # Pending =>
    EmitCase([x |-> x, op |-> op, t |-> t, res |-> res, compared |-> k])
=============================================================================

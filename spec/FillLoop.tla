------------------------------- MODULE FillLoop -------------------------------
(* C12: the gap-filling scan: it remembers the last value that is not NaN and *)
(* writes a gap when the value on its other side is known.                    *)
EXTENDS Signals, Emit
CONSTANTS Values, MaxLen
VARIABLES x, k, left, out
vars == <<x, k, left, out>>
Unset == <<ODD, 1>>
Init == /\ x \in SeqsOf({v - 2 : v \in Values} \cup {NAN}, 0..MaxLen)
        /\ k = 1 /\ left = 0 /\ out = [i \in 1..Len(x) |-> Unset]
Skip == /\ k <= Len(x) /\ IsNaN(x[k]) /\ k' = k + 1 /\ UNCHANGED <<x, left, out>>
Close == /\ k <= Len(x) /\ ~IsNaN(x[k])
         /\ out' = [i \in 1..Len(x) |->
                CASE i = k -> <<x[k], 1>>
                  [] left = 0 /\ i < k -> <<x[k], 1>>
                  [] left # 0 /\ left < i /\ i < k ->
                        <<x[left] * (k - i) + x[k] * (i - left), k - left>>
                  [] OTHER -> out[i]]
         /\ left' = k /\ k' = k + 1 /\ UNCHANGED x
Tail1 == /\ k = Len(x) + 1
         /\ out' = [i \in 1..Len(x) |-> IF i > left THEN (IF left = 0 THEN <<NAN, 1>> ELSE <<x[left], 1>>) ELSE out[i]]
         /\ k' = k + 1 /\ UNCHANGED <<x, left>>
Next == Skip \/ Close \/ Tail1
Spec == Init /\ [][Next]_vars
Finished == k = Len(x) + 2
FillsAll == Finished => \A i \in 1..Len(x) : out[i] = Filled(x, i)
\* what is written is never changed, but for NaN positions not yet decided
Stable == [][\A i \in 1..Len(x) : out[i] # Unset => out'[i] = out[i]]_vars
Emitted == Finished => EmitCase([x |-> x, num |-> [i \in 1..Len(x) |-> out[i][1]],
                                 den |-> [i \in 1..Len(x) |-> out[i][2]]])
=============================================================================

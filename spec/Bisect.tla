-------------------------------- MODULE Bisect --------------------------------
(* C06: the two bisections, one probe per step.                               *)
EXTENDS Search, Emit
CONSTANTS Ranks, MaxLen
VARIABLES x, v, lo, hi, lor, hir
vars == <<x, v, lo, hi, lor, hir>>
SortedSeqs == {s \in SeqsOf(Ranks, 0..MaxLen) : Sorted(s)}
Init == /\ x \in SortedSeqs
        /\ v \in Ranks
        /\ lo = 0 /\ hi = Len(x)
        /\ lor = 0 /\ hir = Len(x)
ProbeLeft == /\ lo < hi
             /\ LET m == (lo + hi) \div 2 IN
                IF Elem(x, m) < v THEN lo' = m + 1 /\ hi' = hi ELSE hi' = m /\ lo' = lo
             /\ UNCHANGED <<x, v, lor, hir>>
ProbeRight == /\ lo = hi     \* one search after the other: they share nothing
              /\ lor < hir
              /\ LET m == (lor + hir) \div 2 IN
                 IF v < Elem(x, m) THEN hir' = m /\ lor' = lor ELSE lor' = m + 1 /\ hir' = hir
              /\ UNCHANGED <<x, v, lo, hi>>
Next == ProbeLeft \/ ProbeRight
Spec == Init /\ [][Next]_vars
Bracket ==
    /\ 0 <= lo /\ lo <= hi /\ hi <= Len(x) /\ 0 <= lor /\ lor <= hir /\ hir <= Len(x)
    /\ \A i \in 0..(lo - 1) : Elem(x, i) < v
    /\ \A i \in hi..(Len(x) - 1) : Elem(x, i) >= v
    /\ \A i \in 0..(lor - 1) : Elem(x, i) <= v
    /\ \A i \in hir..(Len(x) - 1) : Elem(x, i) > v
Done == lo = hi /\ lor = hir
Counts == Done => lo = Left(x, v) /\ lor = Right(x, v) /\ lo <= lor
Shrinks == [][(hi - lo) + (hir - lor) > (hi' - lo') + (hir' - lor')]_vars
Emitted == Done => EmitCase([x |-> x, v |-> v, l |-> lo, r |-> lor])
=============================================================================

------------------------------- MODULE Ordered -------------------------------
(* C05: ordered and all_same.                                                 *)
EXTENDS Relations
IsOrdered(x, op) == \A i \in 1..(Len(x) - 1) : Sat(x[i], op, x[i + 1])
AllSame(x) == Len(x) <= 1 \/ \A i \in 1..Len(x) : FEq(x[i], x[1])

OrderedFailures(e) ==
    IF "rel" \in DOMAIN e
    THEN IF e.out = (IF e.fn = "ordered" THEN Chain(e.rel, e.x) ELSE AllTo(e.rel, e.x)) THEN {} ELSE {e.fn \o "-related"}
    ELSE IF e.fn = "ordered" /\ e.out # IsOrdered(e.x, e.op) THEN {"ordered-" \o e.op}
    ELSE IF e.fn = "all_same" /\ e.out # AllSame(e.x) THEN {"all_same"} ELSE {}
=============================================================================

-------------------------------- MODULE First --------------------------------
(* C03: what first and argfirst return, and the judgement of a recorded call. *)
EXTENDS Relations

Matches(x, op, t) == {i \in 0..(Len(x) - 1) : Sat(Elem(x, i), op, t)}
ArgFirst(x, op, t) == LET m == Matches(x, op, t) IN IF m = {} THEN -1 ELSE Min(m)
First(x, op, t, o) == LET i == ArgFirst(x, op, t) IN IF i = -1 THEN o ELSE Elem(x, i)
\* The comparisons an implementation may make: the elements up to the first match
Compared(x, op, t) == LET i == ArgFirst(x, op, t) IN IF i = -1 THEN Len(x) ELSE i + 1

RelatedFailures(e) ==
    LET i == FirstTo(e.rel, e.x, e.t)
        want == CASE e.fn = "argfirst" -> i - 1
                  [] e.fn = "first" -> IF i = 0 THEN e.o ELSE e.x[i]
    IN (IF e.out # want THEN {e.fn \o "-related"} ELSE {})
FirstFailures(e) == IF "rel" \in DOMAIN e THEN RelatedFailures(e) ELSE
    (IF e.fn = "argfirst" /\ e.out # ArgFirst(e.x, e.op, e.t) THEN {"argfirst"} ELSE {})
    \cup
    (IF e.fn = "first" /\ e.out # First(e.x, e.op, e.t, e.o) THEN {"first"} ELSE {})
    \cup
    (IF e.compared > Compared(e.x, e.op, e.t) THEN {"compared-past-match"} ELSE {})
=============================================================================

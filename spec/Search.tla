-------------------------------- MODULE Search --------------------------------
(* C06: searchsortedl, searchsortedr and percentileofscore as counts.         *)
EXTENDS Vals
CountLess(x, v) == Cardinality({i \in 1..Len(x) : FLt(x[i], v)})
CountEq(x, v) == Cardinality({i \in 1..Len(x) : FEq(x[i], v)})
Left(x, v) == CountLess(x, v)
Right(x, v) == CountLess(x, v) + CountEq(x, v)
Sorted(x) == \A i \in 1..(Len(x) - 1) : x[i] <= x[i + 1]

\* Twice the number of elements that count towards the percentile
Kinds == {"rank", "weak", "strict", "mean"}
TwiceRank(x, s, kind) ==
    LET lt == CountLess(x, s)
        eq == CountEq(x, s)
    IN CASE kind = "strict" -> 2 * lt
         [] kind = "weak"   -> 2 * (lt + eq)
         [] kind = "mean"   -> 2 * lt + eq
         [] kind = "rank"   -> 2 * lt + (IF eq > 0 THEN eq + 1 ELSE 0)

\* e.out of percentileofscore is 2 * n * percentile / 100
SearchFailures(e) ==
    CASE e.fn = "searchsortedl" -> IF e.out # Left(e.x, e.v) THEN {e.fn} ELSE {}
      [] e.fn = "searchsortedr" -> IF e.out # Right(e.x, e.v) THEN {e.fn} ELSE {}
      [] e.fn = "percentileofscore" ->
             IF e.out # (IF Len(e.x) = 0 THEN NAN ELSE TwiceRank(e.x, e.v, e.kind))
             THEN {"percentile-" \o e.kind} ELSE {}
=============================================================================

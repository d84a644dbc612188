-------------------------------- MODULE KBNSum --------------------------------
(* C19: compensated sums.  Terms are <<hi, lo>>, standing for hi*BIG + lo,    *)
(* with BIG so large that a floating-point number holds one part or the other.*)
EXTENDS Vals
Special(t) == ~IsFin(t[1])                \* infinities and NaN are in hi
Sum2(x) == <<SumSeq([i \in 1..Len(x) |-> x[i][1]]), SumSeq([i \in 1..Len(x) |-> x[i][2]])>>
\* [k |-> "nan"/"inf"/"sum"]
KbnSum(x) ==
    LET hs == {x[i][1] : i \in 1..Len(x)}
    IN IF NAN \in hs \/ (PINF \in hs /\ NINF \in hs) THEN <<NAN, 0>>
       ELSE IF PINF \in hs THEN <<PINF, 0>> ELSE IF NINF \in hs THEN <<NINF, 0>>
       ELSE Sum2(x)

KBNFailures(e) ==
    CASE e.k = "sum" -> LET s == KbnSum(e.x)
                        IN IF e.out = s THEN {} ELSE {"sum"}
      [] e.k = "near" -> IF e.got = e.want THEN {} ELSE {e.clause}
=============================================================================

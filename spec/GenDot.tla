-------------------------------- MODULE GenDot --------------------------------
(* C15: the composition of a product function and a reduction.                *)
EXTENDS Vals

B(c) == IF c THEN 1 ELSE 0
BoolFns == {"equal", "less", "logical_and", "logical_or", "logical_xor", "not_equal"}
\* Elementwise functions on integers; bool says that the operands are truth values
Op(f, bool, a, b) ==
    CASE f = "add" -> IF bool THEN B(a + b > 0) ELSE a + b
      [] f = "multiply" -> a * b
      [] f = "subtract" -> a - b
      [] f = "minimum" -> MinOf(a, b)
      [] f = "maximum" -> MaxOf(a, b)
      [] f = "equal" -> B(a = b)
      [] f = "not_equal" -> B(a # b)
      [] f = "less" -> B(a < b)
      [] f = "logical_and" -> B(a # 0 /\ b # 0)
      [] f = "logical_or" -> B(a # 0 \/ b # 0)
      [] f = "logical_xor" -> B((a # 0) # (b # 0))
\* ODD: there is none
Identity(f) == CASE f = "add" -> 0 [] f = "multiply" -> 1 [] f = "logical_and" -> 1 [] f = "logical_or" -> 0
                 [] f = "logical_xor" -> 0 [] OTHER -> ODD
\* Reductions that are generalized ufuncs (n)->()
IsGu(f) == f \in {"kbnsum", "argmax", "argmin", "peaktopeak", "all_same"}
Gu(f, s) == CASE f = "kbnsum" -> SumSeq(s)
              [] f = "argmax" -> Min({i \in 1..Len(s) : s[i] = Max(Range(s))}) - 1
              [] f = "argmin" -> Min({i \in 1..Len(s) : s[i] = Min(Range(s))}) - 1
              [] f = "peaktopeak" -> Max(Range(s)) - Min(Range(s))
              [] f = "all_same" -> B(\A i \in 1..Len(s) : s[i] = s[1])

Prods(p, x, y) == [i \in 1..Len(x) |-> Op(p, FALSE, x[i], y[i])]
\* ODD: the call raises
Dot(p, s, x, y) ==
    LET z == Prods(p, x, y)
        bool == p \in BoolFns
    IN IF z = <<>> THEN (IF IsGu(s) THEN ODD ELSE Identity(s))
       ELSE IF IsGu(s) THEN Gu(s, z)
       ELSE FoldLeft(LAMBDA a, b : Op(s, bool, a, b), z[1], Tail(z))

\* Which loops the composition has.  A loop is <<input chars, output char>>.
Reducible(l) == \A i \in 1..Len(l[1]) : l[1][i] = l[2]
Loops(pl, sl, nin) ==      \* in order of the loops of prodfunc, then of sumfunc
    SelectSeq([k \in 1..(Len(pl) * Len(sl)) |-> <<((k - 1) \div Len(sl)) + 1, ((k - 1) % Len(sl)) + 1>>],
              LAMBDA ij : LET pr == pl[ij[1]]
                              su == sl[ij[2]]
                          IN /\ \A q \in 1..Len(pr[1]) : pr[1][q] # "O"
                             /\ pr[2] # "O"
                             /\ \A q \in 1..Len(su[1]) : su[1][q] = pr[2]
                             /\ (nin = 2 => su[2] = pr[2]))
DotTypes(pl, sl, nin) == LET L == Loops(pl, sl, nin)
                         IN [k \in 1..Len(L) |-> <<pl[L[k][1]][1], sl[L[k][2]][2]>>]

GenDotFailures(e) ==
    CASE e.k = "value" -> IF e.out = Dot(e.p, e.s, e.x, e.y) THEN {} ELSE {"value"}
      [] e.k = "types" -> IF e.types = DotTypes(e.pl, e.sl, e.nin) THEN {} ELSE {"types"}
      [] e.k = "fold" ->     \* identities of values: the result against the step-by-step reduction
            IF e.got = e.want THEN {} ELSE {"reduction"}
=============================================================================

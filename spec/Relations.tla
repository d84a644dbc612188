------------------------------ MODULE Relations ------------------------------
(* The six relations, on values compared as IEEE 754 compares them.           *)
EXTENDS Vals
Ops == {"LT", "LE", "EQ", "NE", "GT", "GE"}
Sat(a, op, b) ==
    CASE op = "LT" -> FLt(a, b)
      [] op = "LE" -> FLe(a, b)
      [] op = "EQ" -> FEq(a, b)
      [] op = "NE" -> ~FEq(a, b)
      [] op = "GT" -> FLt(b, a)
      [] op = "GE" -> FLe(b, a)

(* Objects may be related in any way.  r[i + 1][j + 1]: item i is related to  *)
(* item j; x: a sequence of items.                                            *)
Chain(r, x) == \A i \in 1..(Len(x) - 1) : r[x[i] + 1][x[i + 1] + 1]
AllTo(r, x) == \A i \in 1..Len(x) : r[x[i] + 1][x[1] + 1]
FirstTo(r, x, t) == LET m == {i \in 1..Len(x) : r[x[i] + 1][t + 1]} IN IF m = {} THEN 0 ELSE Min(m)
=============================================================================

-------------------------------- MODULE CurveWalk --------------------------------
(* A walk across the domain of a function, from piece to piece (C24): the     *)
(* pieces partition the domain, and the joins of Curves are all the places    *)
(* where the formula changes.  Emits the special values, the joins and the    *)
(* identities for the implementation.  Skip plants a fault: a join left out.  *)
EXTENDS Curves, Emit
CONSTANTS Skip
VARIABLES fn, p, i
vars == <<fn, p, i>>
J == LET s == Joins(fn, p) IN IF Skip /\ Len(s) > 1 THEN [k \in 1..(Len(s) - 1) |-> IF k = 1 THEN s[1] ELSE s[k + 1]] ELSE s
Init == fn \in Fns /\ p \in Pars(fn) /\ i = 0
Next == i < Len(J) /\ i' = i + 1 /\ UNCHANGED <<fn, p>>
Spec == Init /\ [][Next]_vars

\* points of the stretch after join i
Left == IF i = 0 THEN Lo(fn, p) ELSE J[i]
Right == IF i = Len(J) THEN Hi(fn, p) ELSE J[i + 1]
Between(a, b) == IF ~Finite(a) /\ ~Finite(b) THEN {R(-5), R(0), R(3)}
                 ELSE {<<w[1] * a[1] + w[2] * b[1], w[1] * a[2] + w[2] * b[2]>> :
                       w \in {<<1, 1>>, <<5, 1>>, <<1, 5>>, <<40, 1>>, <<1, 40>>, <<2, 3>>}}
Probes == Between(Left, Right)
PieceOn(k) == LET a == IF k = 0 THEN Lo(fn, p) ELSE J[k]
                  b == IF k = Len(J) THEN Hi(fn, p) ELSE J[k + 1]
              IN {Piece(fn, p, x) : x \in Between(a, b)}
Ordered == /\ Finite(Left) /\ Finite(Right) => LT(Left, Right)
           /\ \A x \in Probes : Inside(fn, p, x)
OnePiece == Cardinality(PieceOn(i)) = 1
Changes == i > 0 => PieceOn(i) \cap PieceOn(i - 1) = {}
\* the join itself belongs to one of its two sides, or is the point zero, special in many formulas
JoinServed == i > 0 => Piece(fn, p, J[i]) \in PieceOn(i) \cup PieceOn(i - 1) \/ J[i][1] = 0
\* special points have values, and the brackets of the turning points are ordered
Special == /\ \A at \in Ats(fn, p) : ValueAt(fn, p, at) # {}
           /\ \A k \in 1..Len(Turns(fn, p)) : LEQ(Turns(fn, p)[k].at[1], Turns(fn, p)[k].at[2])
\* in an infinite direction a function whose limits differ runs from the one to the other
Rank(v) == CASE v = {"-inf"} -> -4 [] v = {"-1"} -> -1 [] v = {"0"} -> 0 [] v = {"1/4"} -> 1 [] v = {"1/2"} -> 2
             [] v = {"1"} -> 3 [] v = {"+inf"} -> 4 [] OTHER -> 99
Directed == LET l == IF Finite(Lo(fn, p)) THEN "low edge" ELSE "-inf"
                h == IF Finite(Hi(fn, p)) THEN "high edge" ELSE "+inf"
                a == IF l \in Ats(fn, p) THEN Rank(ValueAt(fn, p, l)) ELSE 99
                z == Rank(ValueAt(fn, p, "zero"))
                b == IF h \in Ats(fn, p) THEN Rank(ValueAt(fn, p, h)) ELSE 99
                runs(u, v) == u # 99 /\ v # 99 /\ Turns(fn, p) = <<>> => (v - u) * Dir(fn, p, 0) >= 0
            IN runs(a, z) /\ runs(z, b)
Emitted == EmitCase([k |-> "stretch", fn |-> fn, p |-> p, i |-> i, join |-> IF i = 0 THEN <<0, 0>> ELSE J[i],
                     lo |-> Lo(fn, p), hi |-> Hi(fn, p), turns |-> Turns(fn, p),
                     at |-> IF i > 0 THEN <<>> ELSE [a \in Ats(fn, p) |-> ValueAt(fn, p, a)]])
=============================================================================

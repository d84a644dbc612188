-------------------------------- MODULE Geometry --------------------------------
(* C20: norms, products, areas, of integer vectors.  A real result is given   *)
(* as <<num, den, p>>: the p-th root of num/den.                              *)
EXTENDS Vals
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Root(num, den, p) == [num |-> num, den |-> den, p |-> p]

\* Vectors of moduli (of a real or complex vector)
NormOf(m, p) == IF \E i \in 1..Len(m) : IsNaN(m[i]) THEN Root(NAN, 1, 1)
                ELSE IF \E i \in 1..Len(m) : m[i] = PINF THEN Root(PINF, 1, 1)
                ELSE IF p = PINF THEN Root(Max({0} \cup Range(m)), 1, 1)
                ELSE Root(SumSeq([i \in 1..Len(m) |-> Pow(m[i], p)]), 1, p)
RmsOf(m) == IF \E i \in 1..Len(m) : IsNaN(m[i]) THEN Root(NAN, 1, 1)
            ELSE IF \E i \in 1..Len(m) : m[i] = PINF THEN Root(PINF, 1, 1)
            ELSE Root(SumSeq([i \in 1..Len(m) |-> m[i] * m[i]]), Len(m), 2)
VDot(u, v) == SumSeq([i \in 1..Len(u) |-> u[i] * v[i]])
Cross2(u, v) == u[1] * v[2] - u[2] * v[1]
Cross3(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>

\* elements whose product does not commute: 2 x 2 matrices <<a, b, c, d>>
MMul(p, q) == <<p[1]*q[1] + p[2]*q[3], p[1]*q[2] + p[2]*q[4], p[3]*q[1] + p[4]*q[3], p[3]*q[2] + p[4]*q[4]>>
MDet(p, q, r, s) == [i \in 1..4 |-> MMul(p, s)[i] - MMul(q, r)[i]]      \* of rows (p, q), (r, s)
MCross2(u, v) == MDet(u[1], u[2], v[1], v[2])
\* u2 v3 - u3 v2 and so on: the factor of u is on the left
MCross3(u, v) == LET c(i, j) == [k \in 1..4 |-> MMul(u[i], v[j])[k] - MMul(u[j], v[i])[k]] IN <<c(2, 3), c(3, 1), c(1, 2)>>

Sub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
\* 4 times the square of the area, by the Gram determinant
Area4(a, b, c) == LET u == Sub(b, a)
                      v == Sub(c, a)
                  IN VDot(u, u) * VDot(v, v) - VDot(u, v) * VDot(u, v)
\* an index from the end counts back; ODD: out of range
Index(i, m) == LET j == IF i < 0 THEN i + m ELSE i IN IF j < 0 \/ j >= m THEN ODD ELSE j + 1
Area4Of(pts, idx) == LET j == [k \in 1..3 |-> Index(idx[k], Len(pts))]
                     IN IF \E k \in 1..3 : j[k] = ODD THEN NAN ELSE Area4(pts[j[1]], pts[j[2]], pts[j[3]])

GeometryFailures(e) ==
    CASE e.k = "vdot" -> IF e.out = VDot(e.u, e.v) THEN {} ELSE {"vdot"}
      [] e.k = "cross2" -> IF e.out = Cross2(e.u, e.v) THEN {} ELSE {"cross2"}
      [] e.k = "cross3" -> IF e.out = Cross3(e.u, e.v) THEN {} ELSE {"cross3"}
      [] e.k = "mcross2" -> IF e.out = MCross2(e.u, e.v) THEN {} ELSE {"cross2-matrices"}
      [] e.k = "mcross3" -> IF e.out = MCross3(e.u, e.v) THEN {} ELSE {"cross3-matrices"}
      [] e.k = "area" -> IF e.out = Area4Of(e.pts, e.idx) THEN {} ELSE {"area"}
      [] e.k = "sumsq" -> IF e.out = VDot(e.u, e.u) THEN {} ELSE {e.fn}   \* of moduli
      [] e.k = "chain" ->    \* norms for increasing orders, and the largest element
            (IF \A i \in 1..(Len(e.r) - 1) : e.r[i] >= e.r[i + 1] THEN {} ELSE {"norm-order"})
            \cup (IF \A i \in 1..Len(e.r) : e.r[i] >= e.lo THEN {} ELSE {"norm-below-max"})
=============================================================================

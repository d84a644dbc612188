------------------------------- MODULE AreaCases -------------------------------
(* C20: products of vectors, and the area of the triangle of three indices.   *)
EXTENDS Geometry, Emit
CONSTANTS Kind, Data, Dim, NPts, Shift
VARIABLES u, v, pts, idx, done
vars == <<u, v, pts, idx, done>>
D == {x - Shift : x \in Data}
Vecs == [1..Dim -> D]
Init == /\ done = FALSE
        /\ IF Kind = "vec" THEN u \in Vecs /\ v \in Vecs /\ pts = <<>> /\ idx = <<>>
           ELSE /\ u = <<>> /\ v = <<>> /\ pts \in [1..NPts -> Vecs]
                /\ IF Kind = "tri" THEN idx = <<0, 1, 2>>
                   ELSE idx \in [1..3 -> (-NPts - 1)..NPts]
Next == ~done /\ done' = TRUE /\ UNCHANGED <<u, v, pts, idx>>
Spec == Init /\ [][Next]_vars
Perms == {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>}
\* Heron: 16 times the square of the area from the squared sides
Heron16(a2, b2, c2) == 2 * (a2 * b2 + b2 * c2 + c2 * a2) - (a2 * a2 + b2 * b2 + c2 * c2)
Lagrange == Kind = "vec" /\ Dim = 3 =>
    /\ VDot(Cross3(u, v), Cross3(u, v)) = VDot(u, u) * VDot(v, v) - VDot(u, v) * VDot(u, v)
    /\ VDot(Cross3(u, v), u) = 0 /\ VDot(Cross3(u, v), v) = 0
    /\ Cross3(v, u) = [i \in 1..3 |-> -Cross3(u, v)[i]]
Anti == Kind = "vec" /\ Dim = 2 => Cross2(u, v) = -Cross2(v, u) /\
                                   Cross2(u, v) * Cross2(u, v) = VDot(u, u) * VDot(v, v) - VDot(u, v) * VDot(u, v)
Symmetric == Kind # "vec" => \A s \in Perms : Area4Of(pts, idx) = Area4Of(pts, [k \in 1..3 |-> idx[s[k]]])
HeronAgrees == Kind = "tri" => LET d(a, b) == VDot(Sub(a, b), Sub(a, b))
                               IN 4 * Area4(pts[1], pts[2], pts[3]) =
                                  Heron16(d(pts[1], pts[2]), d(pts[2], pts[3]), d(pts[1], pts[3]))
Emitted == done => EmitCase([u |-> u, v |-> v, pts |-> pts, idx |-> idx,
                             dot |-> VDot(u, v), c2 |-> IF Kind = "vec" /\ Dim = 2 THEN Cross2(u, v) ELSE 0,
                             c3 |-> IF Kind = "vec" /\ Dim = 3 THEN Cross3(u, v) ELSE <<>>,
                             area4 |-> IF Kind = "vec" THEN 0 ELSE Area4Of(pts, idx)])
=============================================================================

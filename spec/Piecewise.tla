------------------------------ MODULE Piecewise ------------------------------
(* C14: the piecewise functions.  A region is decided by comparisons only, so *)
(* the same operators judge integers and ranks of arbitrary values.           *)
EXTENDS Vals

Ramps == {"linearstep", "smoothstep3", "smoothstep5"}
Semi == {"linear", "parabolic", "spherical"}

\* The names of the regions that may hold x (more than one only where breakpoints
\* coincide and the documentation does not choose).  p: the breakpoints.
Regions(fn, p, x) ==
    CASE fn = "step" -> IF x < p[1] THEN {"flow"} ELSE IF x > p[1] THEN {"fhigh"} ELSE {"fa"}
      [] fn \in Ramps -> IF p[1] > p[2] THEN {"nan"}
                         ELSE IF IsNaN(x) THEN {"nan"}
                         ELSE IF x = p[1] /\ x = p[2] THEN {"fa", "fb", "mid"}
                         ELSE IF x <= p[1] THEN {"fa"} ELSE IF x >= p[2] THEN {"fb"} ELSE {"ramp"}
      [] fn = "trapezoid_pulse" ->
             IF ~(p[1] <= p[2] /\ p[2] <= p[3] /\ p[3] <= p[4]) \/ IsNaN(x) THEN {"nan"}
             ELSE IF x < p[1] \/ x > p[4] THEN {"zero"}
             ELSE (IF (x = p[1] /\ x < p[2]) \/ (x = p[4] /\ x > p[3]) THEN {"zero"} ELSE {})
                  \cup (IF x > p[1] /\ x < p[2] THEN {"rise"} ELSE {})
                  \cup (IF x > p[3] /\ x < p[4] THEN {"fall"} ELSE {})
                  \cup (IF x >= p[2] /\ x <= p[3] THEN {"amp"} ELSE {})
                  \cup (IF x >= p[2] /\ x <= p[3] /\ (x = p[1] \/ x = p[4]) THEN {"zero"} ELSE {})
      [] fn = "deadzone" -> IF x < p[1] THEN {"below"} ELSE IF x > p[2] THEN {"above"} ELSE {"zero"}
      [] fn \in Semi -> IF IsNaN(x) THEN {"nan"} ELSE IF x >= p[1] THEN {"sill"} ELSE IF x = 0 THEN {"nugget"} ELSE {"ramp"}
      [] fn = "nan_to_num" -> IF IsNaN(x) THEN {"replacement"} ELSE {"x"}

\* Values as fractions.  v: the value parameters; u = t/d is the position in a ramp.
Shape(fn, fa, fb, t, d) ==
    CASE fn = "linearstep" \/ fn = "linear" -> <<fa * (d - t) + fb * t, d>>
      [] fn = "smoothstep3" -> <<fa * d ^ 3 + (fb - fa) * t ^ 2 * (3 * d - 2 * t), d ^ 3>>
      [] fn = "smoothstep5" -> <<fa * d ^ 5 + (fb - fa) * t ^ 3 * (t * (6 * t - 15 * d) + 10 * d ^ 2), d ^ 5>>
      [] fn = "parabolic" -> <<fa * d ^ 2 + (fb - fa) * t * (2 * d - t), d ^ 2>>
      [] fn = "spherical" -> <<2 * fa * d ^ 3 + (fb - fa) * t * (3 * d ^ 2 - t ^ 2), 2 * d ^ 3>>

InRegion(fn, r, p, v, x) ==
    CASE r = "nan" -> <<NAN, 1>>
      [] r = "zero" -> <<0, 1>>
      [] fn = "step" -> <<CASE r = "flow" -> v[1] [] r = "fa" -> v[2] [] r = "fhigh" -> v[3], 1>>
      [] r = "fa" -> <<v[1], 1>>
      [] r = "fb" -> <<v[2], 1>>
      [] r = "mid" -> <<v[1] + v[2], 2>>
      [] r = "amp" -> <<v[1], 1>>
      [] r = "sill" -> <<v[2], 1>>
      [] r = "nugget" -> <<v[1], 1>>
      [] r = "rise" -> <<v[1] * (x - p[1]), p[2] - p[1]>>
      [] r = "fall" -> <<v[1] * (p[4] - x), p[4] - p[3]>>
      [] r = "below" -> <<IF IsInf(x) THEN x ELSE x - p[1], 1>>
      [] r = "above" -> <<IF IsInf(x) THEN x ELSE x - p[2], 1>>
      [] r = "replacement" -> <<v[1], 1>>
      [] r = "x" -> <<x, 1>>
      [] r = "ramp" -> IF fn \in Semi THEN Shape(fn, v[1], v[2], x, p[1])
                       ELSE Shape(fn, v[1], v[2], x - p[1], p[2] - p[1])

PiecewiseFailures(e) ==
    CASE e.k = "region" ->
            \* e.holds: the names of the regions whose constant or line y lies on
            LET r == Regions(e.fn, e.p, e.x)
            IN IF (r \cap Range(e.holds)) # {} THEN {} ELSE {e.fn}
      [] e.k = "chain" ->
            \* ranks of the values along increasing x, merged within rounding
            IF \A i \in 1..(Len(e.y) - 1) : IF e.up THEN e.y[i] <= e.y[i + 1] ELSE e.y[i] >= e.y[i + 1]
            THEN {} ELSE {e.fn \o "-monotone"}
      [] e.k = "bounds" ->
            IF \A i \in 1..Len(e.y) : e.y[i] >= e.lo /\ e.y[i] <= e.hi THEN {} ELSE {e.fn \o "-bounds"}
      [] e.k = "squares" ->      \* y = sqrt(sum of squares), exact data
            IF e.y = SumSeq([i \in 1..Len(e.x) |-> e.x[i] * e.x[i]]) THEN {} ELSE {e.fn}
=============================================================================

------------------------------- MODULE Interp --------------------------------
(* C13: linear interpolation on a strictly increasing grid; no extrapolation. *)
EXTENDS Vals

\* The segment or the grid point that decides the value at x:
\* <<"nan">>, <<"at", i>> or <<"between", i>> (the segment from i to i + 1)
Where(x, xp) ==
    LET n == Len(xp) IN
    IF n = 0 \/ IsNaN(x) THEN <<"nan", 0>>
    ELSE IF x < xp[1] \/ x > xp[n] THEN <<"nan", 0>>
    ELSE IF \E i \in 1..n : xp[i] = x THEN <<"at", CHOOSE i \in 1..n : xp[i] = x>>
    ELSE <<"between", Max({i \in 1..n : xp[i] < x})>>

\* The value as a fraction
Value(x, xp, fp) ==
    LET w == Where(x, xp)
        i == w[2]
    IN CASE w[1] = "nan" -> <<NAN, 1>>
         [] w[1] = "at" -> <<fp[i], 1>>
         [] OTHER -> <<fp[i] * (xp[i + 1] - x) + fp[i + 1] * (x - xp[i]), xp[i + 1] - xp[i]>>

Agrees(y, f) == IF IsNaN(f[1]) \/ IsNaN(y) THEN IsNaN(f[1]) /\ IsNaN(y) ELSE y * f[2] = f[1]

InterpFailures(e) ==
    CASE e.fn = "exact" ->      \* queries x on one grid, integer data
            IF Len(e.y) = Len(e.x) /\ \A k \in 1..Len(e.x) : Agrees(e.y[k], Value(e.x[k], e.xp, e.fp))
            THEN {} ELSE {"linear_interp1d"}
      [] e.fn = "ranks" ->
            \* ranks of x and xp; at[i]: y is fp[i]; on[i]: y is on the chord of segment i, within rounding
            LET w == Where(e.x, e.xp) IN
            IF CASE w[1] = "nan" -> e.isnan
                 [] w[1] = "at" -> e.at[w[2]]
                 [] OTHER -> e.on[w[2]]
            THEN {} ELSE {"linear_interp1d-" \o w[1]}
=============================================================================

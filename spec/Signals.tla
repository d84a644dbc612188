------------------------------- MODULE Signals -------------------------------
(* C12: unwrapping by whole periods, and filling of gaps by interpolation.    *)
(* Units: the period is 2*half, so that half a period is an integer.          *)
EXTENDS Vals

\* Which outputs may follow the output y0 for the input x1: whole periods from x1,
\* at most half a period from y0 (two candidates if x1 is exactly between)
Mod(a, b) == a % b       \* TLC: result in 0..b-1
UnwrapNext(y0, x1, half) ==
    LET p == 2 * half
        r == Mod(x1 - y0 + half, p)
        near == y0 - half + r
    IN IF r = 0 THEN {y0 - half, y0 + half} ELSE {near}

\* first position with a value that is not finite, or Len + 1
FirstBad(x) == LET B == {i \in 1..Len(x) : ~IsFin(x[i])} IN IF B = {} THEN Len(x) + 1 ELSE Min(B)

UnwrapAllowed(x, half, y) ==
    /\ Len(y) = Len(x)
    /\ LET b == FirstBad(x) IN
       /\ x # <<>> => y[1] = x[1]
       /\ \A i \in 2..Len(x) : IF i < b THEN y[i] \in UnwrapNext(y[i - 1], x[i], half) ELSE y[i] = NAN

\* Filling: the value at i as a fraction <<num, den>>
LeftOf(x, i) == LET S == {j \in 1..i : ~IsNaN(x[j])} IN IF S = {} THEN 0 ELSE Max(S)
RightOf(x, i) == LET S == {j \in i..Len(x) : ~IsNaN(x[j])} IN IF S = {} THEN 0 ELSE Min(S)
Filled(x, i) ==
    LET l == LeftOf(x, i)
        r == RightOf(x, i)
    IN CASE l = 0 /\ r = 0 -> <<NAN, 1>>
         [] l = 0 /\ r # 0 -> <<x[r], 1>>
         [] r = 0 /\ l # 0 -> <<x[l], 1>>
         [] l # 0 /\ l = r -> <<x[i], 1>>
         [] OTHER -> <<x[l] * (r - i) + x[r] * (i - l), r - l>>

\* e.tol: allowed |out*den - num| (0: exact)
FilledAs(v, f) == IF IsNaN(f[1]) \/ IsNaN(v) THEN IsNaN(v) /\ IsNaN(f[1]) ELSE v * f[2] = f[1]

SignalFailures(e) ==
    CASE e.fn = "unwrap" -> IF UnwrapAllowed(e.x, e.half, e.y) THEN {} ELSE {"unwrap"}
      [] e.fn = "fillnan1d" ->
            IF Len(e.y) = Len(e.x) /\ \A i \in 1..Len(e.x) : FilledAs(e.y[i], Filled(e.x, i)) THEN {} ELSE {"fillnan1d"}
      [] e.fn = "fill-keep" ->    \* identities of the values: those that are not NaN stay
            IF Len(e.y) = Len(e.x) /\ \A i \in 1..Len(e.x) : IsNaN(e.x[i]) \/ e.y[i] = e.x[i] THEN {} ELSE {"fillnan1d-keep"}
      [] e.fn = "fill-range" ->   \* ranks: a filled value lies between its neighbours
            IF Len(e.y) = Len(e.x) /\ \A i \in 1..Len(e.x) :
                    ~IsNaN(e.x[i]) \/
                    LET l == LeftOf(e.x, i)
                        r == RightOf(e.x, i)
                        a == IF l = 0 THEN e.x[r] ELSE e.x[l]
                        b == IF r = 0 THEN e.x[l] ELSE e.x[r]
                    IN e.y[i] >= MinOf(a, b) /\ e.y[i] <= MaxOf(a, b)
            THEN {} ELSE {"fillnan1d-between"}
=============================================================================

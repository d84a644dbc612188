--------------------------------- MODULE Curves ---------------------------------
(* C24: smooth special functions.  TLC has no real numbers, so the            *)
(* specification speaks of a function through (1) the pieces of its domain,   *)
(* each served by one formula, (2) its values at zero, at the infinities, on  *)
(* the edge of and outside its domain, (3) the direction in which it runs     *)
(* between its turning points, (4) walks across it, given in units in the     *)
(* last place, and (5) the defects, in the same unit, of the identities that  *)
(* define it.  Rational numbers are pairs <<numerator, denominator>>.         *)
EXTENDS Integers, Sequences, FiniteSets
LEQ(a, b) == a[1] * b[2] <= b[1] * a[2]
LT(a, b) == a[1] * b[2] < b[1] * a[2]
R(n) == <<n, 1>>
Abs(n) == IF n < 0 THEN -n ELSE n
Floor(a) == a[1] \div a[2]          \* denominators are positive

Fns == {"logistic", "log_logistic", "logistic_deriv", "swish", "hyperbolic_ramp", "exponential_ramp", "expint1",
        "logexpint1", "debye1", "loggamma1p", "logfactorial", "pow1pm1", "yeo_johnson", "inv_yeo_johnson", "cdf", "sf",
        "logcdf", "logsf", "erfcx", "exponential"}

(* The shape parameter of a function, if it has one: beta, a, y, lambda.  For *)
(* the ramps points are given in units of a; a = 0 is the unsmoothed ramp.    *)
Pars(fn) == CASE fn = "swish" -> {<<0, 1>>, <<1, 2>>, <<1, 1>>, <<3, 1>>, <<-1, 1>>}
              [] fn \in {"hyperbolic_ramp", "exponential_ramp"} -> {<<0, 1>>, <<1, 4>>, <<1, 1>>, <<3, 1>>}
              [] fn = "pow1pm1" -> {<<-3, 1>>, <<-1, 1>>, <<-1, 2>>, <<0, 1>>, <<1, 3>>, <<1, 1>>, <<2, 1>>, <<7, 2>>}
              [] fn \in {"yeo_johnson", "inv_yeo_johnson"} ->
                     {<<-2, 1>>, <<-1, 2>>, <<0, 1>>, <<1, 2>>, <<1, 1>>, <<3, 2>>, <<2, 1>>, <<5, 2>>, <<4, 1>>}
              [] OTHER -> {<<1, 1>>}

---------------------------------------------------------------------------------
(* Domains: [lo, hi], INF an infinite end.                                    *)
INF == <<1, 0>>
NINF == <<-1, 0>>
Finite(a) == a[2] # 0
Domain(fn, p) ==
    CASE fn \in {"expint1", "logexpint1", "exponential"} -> [lo |-> R(0), hi |-> INF]
      [] fn \in {"loggamma1p", "pow1pm1"} -> [lo |-> R(-1), hi |-> INF]
      [] fn = "logfactorial" -> [lo |-> R(0), hi |-> INF]
      [] fn = "inv_yeo_johnson" -> [lo |-> IF LT(R(2), p) THEN <<p[2], 2 * p[2] - p[1]>> ELSE NINF,
                                    hi |-> IF LT(p, R(0)) THEN <<p[2], -p[1]>> ELSE INF]
      [] OTHER -> [lo |-> NINF, hi |-> INF]
\* with a positive denominator
Pos(a) == IF a[2] < 0 THEN <<-a[1], -a[2]>> ELSE a
Lo(fn, p) == Pos(Domain(fn, p).lo)
Hi(fn, p) == Domain(fn, p).hi
Inside(fn, p, x) == /\ Finite(Lo(fn, p)) => LEQ(Lo(fn, p), x)
                    /\ Finite(Hi(fn, p)) => LEQ(x, Hi(fn, p))

(* Which formula serves the point x: the guards, in the order in which they   *)
(* are tried.  y100 is the variable of the table of erfcx.                    *)
Cell(x) == Floor(<<400 * x[2], 4 * x[2] + x[1]>>)             \* 400/(4 + x)
ErfcxPiece(x, top) == IF LT(R(0), x) THEN IF LT(R(top), x) THEN <<"fraction", 0>> ELSE <<"table", Cell(x)>>
                      ELSE IF LT(x, R(-107)) THEN <<"overflow", 0>>
                      ELSE <<"reflected", Cell(<<-x[1], x[2]>>)>>
DebyePiece(x) == CASE LT(x, R(0)) -> <<"reflected", 0>>
                   [] LT(x, R(20)) -> <<"fifths", Floor(<<5 * x[1], x[2]>>)>>
                   [] LT(x, R(40)) -> <<"units", Floor(x)>>
                   [] OTHER -> <<"tail", 0>>
Piece(fn, p, x) ==
    CASE fn = "debye1" -> DebyePiece(x)
      [] fn = "erfcx" -> ErfcxPiece(x, 50)
      [] fn \in {"logistic", "logistic_deriv", "swish", "pow1pm1", "exponential"} -> <<"one", 0>>
      [] fn = "log_logistic" -> IF LT(x, R(0)) THEN <<"minus", 0>> ELSE <<"plus", 0>>
      [] fn = "hyperbolic_ramp" /\ p[1] # 0 ->                 \* x in units of a
             IF LEQ(R(2), x) THEN <<"far", 0>> ELSE IF LT(R(0), x) THEN <<"near", 0>>
             ELSE IF LT(R(-2), x) THEN <<"near, inverted", 0>> ELSE <<"far, inverted", 0>>
      [] fn \in {"exponential_ramp", "hyperbolic_ramp"} ->
             IF LT(R(0), x) THEN <<"plus", 0>> ELSE <<"minus", 0>>
      [] fn = "expint1" -> IF LEQ(x, R(1)) THEN <<"series", 0>> ELSE <<"fraction", 0>>
      [] fn = "logexpint1" -> IF LEQ(x, R(1)) THEN <<"series", 0>> ELSE IF LEQ(x, R(500)) THEN <<"fraction", 0>>
                              ELSE <<"asymptotic", 0>>
      [] fn = "loggamma1p" -> IF LT(<<-1, 4>>, x) /\ LT(x, <<9, 10>>) THEN <<"pade", 0>>
                              ELSE IF LT(x, R(4)) THEN <<"lanczos", 0>>
                              ELSE <<"lanczos, scaled", 0>>
      [] fn = "logfactorial" -> IF LT(x, R(126)) THEN <<"table", Floor(x)>> ELSE <<"stirling", 0>>
      [] fn \in {"yeo_johnson", "inv_yeo_johnson"} -> IF LEQ(R(0), x) THEN <<"plus", 0>> ELSE <<"minus", 0>>
      [] fn \in {"cdf", "sf"} -> IF LT(R(0), x) THEN <<"plus", 0>> ELSE <<"minus", 0>>
      [] fn = "logcdf" -> IF LT(x, R(-1)) THEN <<"erfcx", 0>> ELSE <<"erfc", 0>>
      [] fn = "logsf" -> IF LT(R(1), x) THEN <<"erfcx", 0>> ELSE <<"erfc", 0>>

(* The joins of the pieces, in increasing order.                              *)
CellJoin(k) == <<400 - 4 * k, k>>                  \* where y100 = k
ErfcxJoins == [i \in 1..98 |-> IF i = 1 THEN R(-107) ELSE IF i = 98 THEN R(0)
                               ELSE <<-CellJoin(i + 2)[1], i + 2>>] \o
              [i \in 1..93 |-> IF i = 93 THEN R(50) ELSE CellJoin(100 - i)]
Joins(fn, p) ==
    CASE fn = "debye1" -> [i \in 1..100 |-> <<i - 1, 5>>] \o [i \in 1..21 |-> R(19 + i)]
      [] fn = "erfcx" -> ErfcxJoins
      [] fn \in {"logistic", "logistic_deriv", "swish", "pow1pm1", "exponential"} -> <<>>
      [] fn \in {"log_logistic", "exponential_ramp", "yeo_johnson", "inv_yeo_johnson", "cdf", "sf"} -> <<R(0)>>
      [] fn = "hyperbolic_ramp" -> IF p[1] = 0 THEN <<R(0)>> ELSE <<R(-2), R(0), R(2)>>
      [] fn = "expint1" -> <<R(1)>>
      [] fn = "logexpint1" -> <<R(1), R(500)>>
      [] fn = "loggamma1p" -> <<<<-1, 4>>, <<9, 10>>, R(4)>>
      [] fn = "logfactorial" -> [i \in 1..126 |-> R(i)]
      [] fn = "logcdf" -> <<R(-1)>>
      [] fn = "logsf" -> <<R(1)>>

(* Turning points: the direction reverses somewhere inside each bracket.      *)
Turns(fn, p) ==
    CASE fn = "logistic_deriv" -> <<[at |-> <<R(0), R(0)>>]>>
      [] fn = "loggamma1p" -> <<[at |-> <<<<461, 1000>>, <<462, 1000>>>>]>>
      \* x*beta between -1.279 and -1.278
      [] fn = "swish" /\ p[1] > 0 -> <<[at |-> <<<<-1279 * p[2], 1000 * p[1]>>, <<-1278 * p[2], 1000 * p[1]>>>>]>>
      [] fn = "swish" /\ p[1] < 0 -> <<[at |-> <<<<1278 * p[2], -1000 * p[1]>>, <<1279 * p[2], -1000 * p[1]>>>>]>>
      [] OTHER -> <<>>
(* Direction on the k-th stretch between turning points.                      *)
Dir(fn, p, k) ==
    CASE fn = "logistic_deriv" -> IF k = 0 THEN 1 ELSE -1
      [] fn = "loggamma1p" -> IF k = 0 THEN -1 ELSE 1
      [] fn = "swish" -> IF p[1] = 0 THEN 1 ELSE IF p[1] > 0 THEN IF k = 0 THEN -1 ELSE 1
                         ELSE IF k = 0 THEN 1 ELSE -1
      [] fn \in {"expint1", "logexpint1", "debye1", "sf", "logsf", "erfcx"} -> -1
      [] fn = "pow1pm1" -> IF p[1] > 0 THEN 1 ELSE IF p[1] = 0 THEN 0 ELSE -1
      [] OTHER -> 1

(* Values at special points: the set of the classes allowed.  "par": the      *)
(* parameter itself; "limit": the finite limit of a Yeo-Johnson transform.    *)
Ats(fn, p) == {"nan", "zero", "-zero"} \cup
    (IF Finite(Lo(fn, p)) THEN {"below"} ELSE {"-inf"}) \cup
    (IF Finite(Hi(fn, p)) THEN {"above"} ELSE {"+inf"}) \cup
    (IF fn \in {"inv_yeo_johnson", "pow1pm1", "loggamma1p"} THEN
        (IF Finite(Lo(fn, p)) THEN {"low edge"} ELSE {}) \cup (IF Finite(Hi(fn, p)) THEN {"high edge"} ELSE {}) ELSE {})
Zero == {"0"}
AnyValue == {"any"}
ValueAt(fn, p, at) ==
    CASE at = "nan" -> {"nan"}
      [] at \in {"below", "above"} -> IF fn = "exponential" THEN AnyValue ELSE {"nan"}
      [] fn \in {"logistic", "cdf"} -> IF at = "-inf" THEN Zero ELSE IF at = "+inf" THEN {"1"} ELSE {"1/2"}
      [] fn = "sf" -> IF at = "-inf" THEN {"1"} ELSE IF at = "+inf" THEN Zero ELSE {"1/2"}
      [] fn \in {"log_logistic", "logcdf"} -> IF at = "-inf" THEN {"-inf"} ELSE IF at = "+inf" THEN Zero ELSE {"-log 2"}
      [] fn = "logsf" -> IF at = "+inf" THEN {"-inf"} ELSE IF at = "-inf" THEN Zero ELSE {"-log 2"}
      [] fn = "logistic_deriv" -> IF at \in {"-inf", "+inf"} THEN Zero ELSE {"1/4"}
      [] fn = "swish" -> IF at \in {"zero", "-zero"} THEN Zero
                         ELSE IF p[1] # 0 /\ (at = "+inf") = (p[1] > 0) THEN {IF at = "+inf" THEN "+inf" ELSE "-inf"} ELSE AnyValue
      [] fn \in {"hyperbolic_ramp", "exponential_ramp"} ->
             IF at = "-inf" THEN Zero ELSE IF at = "+inf" THEN {"+inf"} ELSE {"par"}
      [] fn \in {"expint1", "logexpint1"} -> IF at # "+inf" THEN {"+inf"} ELSE IF fn = "expint1" THEN Zero ELSE {"-inf"}
      [] fn = "debye1" -> IF at = "-inf" THEN {"+inf"} ELSE IF at = "+inf" THEN Zero ELSE {"1"}
      [] fn = "loggamma1p" -> IF at = "low edge" THEN {"nan"} ELSE IF at = "+inf" THEN {"+inf"} ELSE Zero
      [] fn = "logfactorial" -> IF at = "+inf" THEN AnyValue ELSE Zero
      [] fn = "pow1pm1" -> IF at \in {"zero", "-zero"} \/ p[1] = 0 THEN IF at = "+inf" THEN AnyValue ELSE Zero
                           ELSE IF (at = "+inf") = (p[1] > 0) THEN {"+inf"} ELSE {"-1"}
      [] fn = "yeo_johnson" -> IF at \in {"zero", "-zero"} THEN Zero
                               ELSE IF at = "+inf" THEN IF p[1] < 0 THEN {"limit"} ELSE {"+inf"}
                               ELSE IF LT(R(2), p) THEN {"limit"} ELSE {"-inf"}
      [] fn = "inv_yeo_johnson" -> IF at \in {"zero", "-zero"} THEN Zero
                                   ELSE IF at \in {"+inf", "high edge"} THEN {"+inf"} ELSE {"-inf"}
      [] fn = "erfcx" -> IF at = "-inf" THEN {"+inf"} ELSE IF at = "+inf" THEN Zero ELSE {"1"}
      [] fn = "exponential" -> IF at = "+inf" THEN {"sill"} ELSE {"nugget"}

---------------------------------------------------------------------------------
(* The monitors.  v: values along a walk of equal, tiny steps, in units in    *)
(* the last place of the largest.  Err: how far a value may be from the       *)
(* curve.                                                                     *)
Bend(v, i) == v[i] - 2 * v[i + 1] + v[i + 2]
Smooth(v, err) == \A i \in 1..(Len(v) - 2) : Abs(Bend(v, i)) <= 4 * err
\* s: steps between neighbours of an ascending chain, in units of the larger
Runs(s, dir, err) == \A i \in 1..Len(s) : IF dir = 0 THEN s[i] = 0 ELSE dir * s[i] >= -2 * err

(* Units in the last place that a value of a function may be off its curve,   *)
(* and by which an identity may fail: a margin above the rounding of the      *)
(* formulas that the functions use (loggamma1p: cancellation next to its      *)
(* zeros is measured against 1).                                              *)
Err(fn) == CASE fn = "debye1" -> 48          \* polynomials with coefficients of double precision
             [] fn \in {"loggamma1p", "logfactorial", "pow1pm1", "yeo_johnson", "inv_yeo_johnson"} -> 16
             [] fn \in {"exponential", "expint1", "logexpint1", "erfcx", "cdf", "sf", "logcdf", "logsf"} -> 16
             [] OTHER -> 8
Ids(fn) ==
    CASE fn = "logistic" -> {"complement", "odds"}
      [] fn = "logistic_deriv" -> {"product", "even"}
      [] fn = "log_logistic" -> {"difference", "exponential", "tail"}
      [] fn = "swish" -> {"ratio"}
      [] fn = "hyperbolic_ramp" -> {"difference", "product", "homogeneous"}
      [] fn = "exponential_ramp" -> {"difference", "power", "homogeneous"}
      [] fn = "expint1" -> {"integral", "bounds"}
      [] fn = "logexpint1" -> {"exponential", "bracket"}
      [] fn = "debye1" -> {"integral", "reflection", "origin"}
      [] fn = "loggamma1p" -> {"recurrence", "duplication", "origin", "integers"}
      [] fn = "logfactorial" -> {"recurrence", "sum", "types"}
      [] fn = "pow1pm1" -> {"rational", "logarithm", "powers", "inverse"}
      [] fn = "yeo_johnson" -> {"rational", "reflection", "powers", "near lambda"}
      [] fn = "inv_yeo_johnson" -> {"round trip", "reflection", "near lambda"}
      [] fn = "cdf" -> {"complement", "integral"}
      [] fn = "sf" -> {"mirror"}
      [] fn = "logcdf" -> {"exponential", "tail", "erfcx"}
      [] fn = "logsf" -> {"mirror"}
      [] fn = "erfcx" -> {"integral", "reflection"}
      [] fn = "exponential" -> {"memoryless", "affine"}
      [] fn = "softmax" -> {"sum", "ratios", "shift", "permutation", "absent"}
      [] fn = "multivariate_logbeta" -> {"one", "recurrence", "permutation", "pair"}
      [] fn = "log1p_doubledouble" -> {"real part", "argument", "conjugate", "real line"}
      [] fn = "log1p_theorem4" -> {"normwise", "conjugate", "real line"}
\* the definition, or the head of its expansion, over the whole range of the type
AllIds(fn) == Ids(fn) \cup (IF fn \in Fns \ {"logfactorial"} THEN {"extreme"} ELSE {})
IdFns == Fns \cup {"softmax", "multivariate_logbeta", "log1p_doubledouble", "log1p_theorem4"}
IdErr(fn, id) == IF id \in {"permutation", "conjugate", "mirror", "types"} /\ fn \notin {"softmax", "multivariate_logbeta"}
                 THEN 0 ELSE 64

CurveFailures(e) ==
    CASE e.k = "walk" -> IF Smooth(e.v, Err(e.fn)) THEN {} ELSE {e.fn \o "-jump"}
      [] e.k = "runs" -> IF Runs(e.s, Dir(e.fn, e.p, e.stretch), Err(e.fn)) THEN {} ELSE {e.fn \o "-monotone"}
      [] e.k = "identity" -> IF e.id \in AllIds(e.fn) /\ Abs(e.ulps) <= IdErr(e.fn, e.id) THEN {}
                             ELSE {e.fn \o "-" \o e.id}
=============================================================================

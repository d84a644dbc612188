---------------------------------- MODULE Runs ----------------------------------
(* Long sequences.  A sequence of any length with few changes is written as   *)
(* runs <<value, count>>, count > 0; the functions of C03-C07 and the sums    *)
(* are computed from the runs.  A sequence repeated g times is its pattern    *)
(* and g; statistics of C16-C20 follow the laws of repetition.  A signal of   *)
(* C10-C12 is seen through the set of its steps.  RunsLaws proves that all    *)
(* this agrees with the definitions.                                          *)
EXTENDS Relations
D == INSTANCE Dispersion
C == INSTANCE Corr
H == INSTANCE Hysteresis
S == INSTANCE Signals
GD == INSTANCE GenDot
G == INSTANCE Geometry

N(rs) == SumSeq([i \in 1..Len(rs) |-> rs[i][2]])
StartOf(rs, i) == SumSeq([j \in 1..(i - 1) |-> rs[j][2]])
Expand(rs) == FoldLeft(LAMBDA a, i : a \o [j \in 1..rs[i][2] |-> rs[i][1]], <<>>, [i \in 1..Len(rs) |-> i])
Tile(x, g) == FoldLeft(LAMBDA a, i : a \o x, <<>>, [i \in 1..g |-> i])
ValuesOf(rs) == {rs[i][1] : i \in 1..Len(rs)}

\* C03
ArgFirstR(rs, op, t) == LET m == {i \in 1..Len(rs) : Sat(rs[i][1], op, t)} IN IF m = {} THEN -1 ELSE StartOf(rs, Min(m))
FirstR(rs, op, t, o) == LET m == {i \in 1..Len(rs) : Sat(rs[i][1], op, t)} IN IF m = {} THEN o ELSE rs[Min(m)][1]
\* C04
ArgValR(rs, v) == StartOf(rs, Min({i \in 1..Len(rs) : rs[i][1] = v}))
ExtremaR(rs, fn) == LET lo == Min(ValuesOf(rs))
                        hi == Max(ValuesOf(rs))
                        a == ArgValR(rs, lo)
                        b == ArgValR(rs, hi)
                    IN CASE fn = "argmin" -> <<a>> [] fn = "argmax" -> <<b>> [] fn = "minmax" -> <<lo, hi>>
                         [] fn = "argminmax" -> <<a, b>> [] fn = "min_argmin" -> <<lo, a>> [] fn = "max_argmax" -> <<hi, b>>
                         [] fn = "peaktopeak" -> <<hi - lo>>
\* C05
OrderedR(rs, op) == /\ \A i \in 1..Len(rs) : rs[i][2] > 1 => Sat(rs[i][1], op, rs[i][1])
                    /\ \A i \in 1..(Len(rs) - 1) : Sat(rs[i][1], op, rs[i + 1][1])
AllSameR(rs) == N(rs) <= 1 \/ \A i \in 1..Len(rs) : FEq(rs[i][1], rs[1][1])
\* C06
LessR(rs, v) == SumSeq([i \in 1..Len(rs) |-> IF FLt(rs[i][1], v) THEN rs[i][2] ELSE 0])
EqR(rs, v) == SumSeq([i \in 1..Len(rs) |-> IF FEq(rs[i][1], v) THEN rs[i][2] ELSE 0])
TwiceR(rs, s, kind) == LET lt == LessR(rs, s)
                           eq == EqR(rs, s)
                       IN CASE kind = "strict" -> 2 * lt [] kind = "weak" -> 2 * (lt + eq) [] kind = "mean" -> 2 * lt + eq
                            [] kind = "rank" -> 2 * lt + (IF eq > 0 THEN eq + 1 ELSE 0)
\* C07: runs <<value, count, weight>>
HistR(rs, m) == [b \in 1..m |-> SumSeq([i \in 1..Len(rs) |-> IF rs[i][1] = b - 1 THEN rs[i][2] * rs[i][3] ELSE 0])]
\* C19, C20, C17: sums
SumR(rs) == SumSeq([i \in 1..Len(rs) |-> rs[i][1] * rs[i][2]])
SumSqR(rs) == SumSeq([i \in 1..Len(rs) |-> rs[i][1] * rs[i][1] * rs[i][2]])
\* C15: runs <<x, count, y>>
DotR(rs, p, s) ==
    LET z == [i \in 1..Len(rs) |-> <<GD!Op(p, FALSE, rs[i][1], rs[i][3]), rs[i][2]>>]
        bool == p \in GD!BoolFns
    IN CASE s \in {"add", "kbnsum"} /\ ~bool -> SumR(z)
         [] s = "subtract" -> 2 * z[1][1] - SumR(z)
         [] s = "minimum" -> Min(ValuesOf(z)) [] s = "maximum" -> Max(ValuesOf(z))
         [] s = "argmin" -> ArgValR(z, Min(ValuesOf(z))) [] s = "argmax" -> ArgValR(z, Max(ValuesOf(z)))
         [] s = "peaktopeak" -> Max(ValuesOf(z)) - Min(ValuesOf(z))
         [] s = "all_same" -> GD!B(AllSameR(z))
         [] s = "logical_and" -> GD!B(0 \notin ValuesOf(z))
         [] s = "logical_or" -> GD!B(ValuesOf(z) # {0})
         [] s = "logical_xor" -> SumR(z) % 2     \* of truth values
\* C12: which run a position is in, and what a gap at run i is filled with: <<first, step numerator, step denominator>>
GapR(rs, i) ==     \* run i is NaN, its neighbours are not
    LET m == rs[i][2] + 1
    IN CASE Len(rs) = 1 -> <<NAN, 0, 1>>
         [] i = 1 -> <<rs[2][1], 0, 1>>
         [] i = Len(rs) -> <<rs[i - 1][1], 0, 1>>
         [] OTHER -> <<rs[i - 1][1], rs[i + 1][1] - rs[i - 1][1], m>>

---------------------------------------------------------------------------------
(* Steps of signals: <<state before, input, state after>>.                    *)
PlaySteps(ss, h) == \A s \in ss : s[3] = H!Play(s[1], s[2], h)
RelaySteps(ss, lo, hi, lv, hv) == \A s \in ss : s[3] = H!RelayStep(s[1], s[2], lo, hi, lv, hv)
UnwrapSteps(ss, half) == \A s \in ss : s[3] \in S!UnwrapNext(s[1], s[2], half)
\* <<x[n-2], x[n-1], x[n], y[n-2], y[n-1], y[n]>>
SectionSteps(ss, c) == \A s \in ss : s[6] = c[1] * s[3] + c[2] * s[2] + c[3] * s[1] - c[4] * s[5] - c[5] * s[4]

LongFailures(e) ==
    CASE e.k = "first" -> (IF e.arg = ArgFirstR(e.rs, e.op, e.t) THEN {} ELSE {"argfirst-long"})
                          \cup (IF e.val = FirstR(e.rs, e.op, e.t, e.o) THEN {} ELSE {"first-long"})
      [] e.k = "extrema" -> IF e.out = ExtremaR(e.rs, e.fn) THEN {} ELSE {e.fn \o "-long"}
      [] e.k = "ordered" -> IF e.out = OrderedR(e.rs, e.op) THEN {} ELSE {"ordered-long"}
      [] e.k = "all_same" -> IF e.out = AllSameR(e.rs) THEN {} ELSE {"all_same-long"}
      [] e.k = "search" -> IF e.l = LessR(e.rs, e.v) /\ e.r = LessR(e.rs, e.v) + EqR(e.rs, e.v) THEN {} ELSE {"searchsorted-long"}
      [] e.k = "percentile" -> IF e.out = TwiceR(e.rs, e.s, e.kind) THEN {} ELSE {"percentile-long"}
      [] e.k = "bincount" -> IF e.out = HistR(e.rs, e.m) THEN {} ELSE {"bincount-long"}
      [] e.k = "sum" -> IF e.out = SumR(e.rs) THEN {} ELSE {e.fn \o "-long"}
      [] e.k = "sumsq" -> IF e.out = SumSqR(e.rs) THEN {} ELSE {e.fn \o "-long"}
      [] e.k = "dot" -> IF e.out = DotR(e.rs, e.p, e.s) THEN {} ELSE {"gendot-long"}
      \* patterns: the statistic of the repeated sequence, taken back to the pattern
      [] e.k = "meanvar" -> IF e.mean = SumSeq(e.x) /\ e.var = D!DevSq(e.x) THEN {} ELSE {"meanvar-long"}
      [] e.k = "mad" -> IF e.out = D!PairSum(e.x) THEN {} ELSE {e.fn \o "-long"}
      [] e.k = "corr" -> IF e.out = C!Cov(e.x, e.y) THEN {} ELSE {"corr-long"}
      [] e.k = "wjaccard" -> IF e.out = C!MinSum(e.x, e.y) THEN {} ELSE {"wjaccard-long"}
      [] e.k = "area" -> IF e.out = G!Area4(e.pts[1], e.pts[2], e.pts[3]) THEN {} ELSE {e.fn \o "-long"}
      [] e.k = "same" -> IF \A i \in 1..Len(e.r) : e.r[i] = e.r[1] THEN {} ELSE {e.fn \o "-long"}
      [] e.k = "play" -> IF PlaySteps(Range(e.steps), e.h) THEN {} ELSE {"backlash-long"}
      [] e.k = "relay" -> IF RelaySteps(Range(e.steps), e.lo, e.hi, e.lv, e.hv) THEN {} ELSE {"hysteresis_relay-long"}
      [] e.k = "unwrap" -> IF UnwrapSteps(Range(e.steps), e.half) THEN {} ELSE {"unwrap-long"}
      [] e.k = "section" -> IF SectionSteps(Range(e.steps), e.c) THEN {} ELSE {"sosfilter-long"}
      \* the run of the input at e.at: its first value in the output (times the count + 1 inside a gap), and the steps
      [] e.k = "fill" -> IF e.rs[e.at][1] # NAN THEN (IF e.first = e.rs[e.at][1] /\ Range(e.steps) = {0} THEN {} ELSE {"fillnan1d-long"})
                         ELSE LET g == GapR(e.rs, e.at)
                              IN IF g[1] = NAN THEN (IF e.first = NAN /\ Range(e.steps) = {0} THEN {} ELSE {"fillnan1d-long"})
                                 ELSE IF e.first = g[1] * g[3] + g[2] /\ Range(e.steps) \subseteq {g[2]} THEN {} ELSE {"fillnan1d-long"}
      [] e.k = "signs" -> IF e.out = (\A q \in Range(e.signs) : Sat(0, e.op, q)) THEN {} ELSE {"ordered-long"}
      [] e.k = "within" -> LET v == IF e.pow = 1 THEN SumR(e.rs) ELSE SumSqR(e.rs)
                           IN IF e.lo <= v /\ v <= e.hi THEN {} ELSE {e.fn \o "-long"}
=============================================================================

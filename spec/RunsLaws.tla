-------------------------------- MODULE RunsLaws --------------------------------
(* The operators of Runs agree with the definitions on the sequences that the *)
(* runs stand for, and statistics obey the laws of repetition.                *)
EXTENDS Runs
F == INSTANCE First
X == INSTANCE Extrema
O == INSTANCE Ordered
P == INSTANCE Search
M == INSTANCE Means
CONSTANTS Data, MaxRuns, MaxCount
VARIABLES rs, g
vars == <<rs, g>>
Init == rs = <<>> /\ g \in 1..3
Next == /\ Len(rs) < MaxRuns
        /\ \E v \in Data, c \in 1..MaxCount : rs' = Append(rs, <<v, c>>)
        /\ UNCHANGED g
Spec == Init /\ [][Next]_vars
x == Expand(rs)
Fins == {v \in Data : IsFin(v)}
Clean == rs # <<>> /\ \A i \in 1..Len(rs) : IsFin(rs[i][1])
Scans == /\ Len(x) = N(rs)
         /\ \A op \in Ops, t \in Data : ArgFirstR(rs, op, t) = F!ArgFirst(x, op, t) /\ FirstR(rs, op, t, 77) = F!First(x, op, t, 77)
         /\ \A op \in Ops : OrderedR(rs, op) = O!IsOrdered(x, op)
         /\ AllSameR(rs) = O!AllSame(x)
\* a run made longer: what follows it moves, and it counts for more
Grow == \A i \in 1..Len(rs) :
          LET q == [rs EXCEPT ![i][2] = @ + g]
              end == StartOf(rs, i) + rs[i][2]
              At(k) == IF k >= end THEN k + g ELSE k
              one(v, p) == IF p THEN v + g ELSE v
          IN /\ \A op \in Ops, t \in Data : /\ ArgFirstR(q, op, t) = At(ArgFirstR(rs, op, t))
                                            /\ FirstR(q, op, t, 77) = FirstR(rs, op, t, 77)
             /\ rs[i][2] >= 2 => \A op \in Ops : OrderedR(q, op) = OrderedR(rs, op)
             /\ AllSameR(q) = AllSameR(rs) \/ rs[i] = <<NAN, 1>>
             /\ \A v \in Fins : LessR(q, v) = one(LessR(rs, v), Sat(rs[i][1], "LT", v)) /\ EqR(q, v) = one(EqR(rs, v), rs[i][1] = v)
             /\ Clean => \A fn \in {"argmin", "argmax"} : ExtremaR(q, fn) = <<At(ExtremaR(rs, fn)[1])>>
Extremes == Clean => LET a == X!ArgMin(x)
                         b == X!ArgMax(x)
                         lo == X!MinVal(x)
                         hi == X!MaxVal(x)
                     IN /\ ExtremaR(rs, "argminmax") = <<a, b>> /\ ExtremaR(rs, "min_argmin") = <<lo, a>>
                        /\ ExtremaR(rs, "max_argmax") = <<hi, b>> /\ ExtremaR(rs, "peaktopeak") = <<hi - lo>>
Counts == \A v \in Fins : /\ LessR(rs, v) = P!CountLess(x, v) /\ EqR(rs, v) = P!CountEq(x, v)
                          /\ \A kind \in P!Kinds : TwiceR(rs, v, kind) = P!TwiceRank(x, v, kind)
Sums == Clean => SumR(rs) = SumSeq(x) /\ SumSqR(rs) = D!SumSq(x)
ys == [i \in 1..Len(rs) |-> <<rs[i][1], rs[i][2], (rs[i][1] * rs[i][1] + i) % 3>>]
NumFns == {"add", "multiply", "subtract", "minimum", "maximum"}
LogicFns == {"logical_and", "logical_or", "logical_xor"}
Dots == Clean => LET u == Expand([i \in 1..Len(rs) |-> <<ys[i][3], rs[i][2]>>])
                 IN /\ \A p \in NumFns, s \in (NumFns \ {"multiply"}) \cup {"kbnsum", "argmin", "argmax", "peaktopeak", "all_same"} :
                         DotR(ys, p, s) = GD!Dot(p, s, x, u)
                    /\ \A p \in GD!BoolFns, s \in LogicFns : DotR(ys, p, s) = GD!Dot(p, s, x, u)
y == [i \in 1..Len(x) |-> (x[i] * x[i]) % 3]
Tiled == Clean => LET tx == Tile(x, g)
                      ty == Tile(y, g)
                  IN /\ D!MeanOf(tx) = D!MeanOf(x) /\ D!DevSq(tx) = g * g * D!DevSq(x)
                     /\ D!PairSum(tx) = g * g * D!PairSum(x)
                     /\ C!Cov(tx, ty) = g * g * C!Cov(x, y) /\ C!MinSum(tx, ty) = g * C!MinSum(x, y)
                     /\ C!MaxSum(tx, ty) = g * C!MaxSum(x, y)
                     /\ G!VDot(tx, ty) = g * G!VDot(x, y)
                     /\ LET z == [i \in 1..Len(x) |-> i % 2]
                        IN G!Area4(z, x, y) * g * g = G!Area4(Tile(z, g), tx, ty)
Means == Clean /\ Len(x) <= 3 /\ ~M!Zero(x) => LET tx == Tile(x, g)
                                                 w == M!Ones(Len(x))
                  IN \A p \in {-2, -1, 1, 2, 3} : M!SameMean(M!PMean(tx, M!Ones(Len(tx)), p), M!PMean(x, w, p))
\* a signal satisfies the steps exactly if it is the output
Steps == Clean => LET o == H!PlayOut(0, x, 1)
                      prev == <<0>> \o o
                      r == H!RelayOut(5, x, 0, 1, -7, 7)
                      pr == <<5>> \o r
                  IN /\ PlaySteps({<<prev[i], x[i], o[i]>> : i \in 1..Len(x)}, 1)
                     /\ \A i \in 1..Len(x), dd \in {-1, 1} : ~PlaySteps({<<prev[i], x[i], o[i] + dd>>}, 1)
                     /\ RelaySteps({<<pr[i], x[i], r[i]>> : i \in 1..Len(x)}, 0, 1, -7, 7)
\* gaps: runs of NaN between runs of values
Split == \A i \in 1..(Len(rs) - 1) : rs[i][1] # NAN \/ rs[i + 1][1] # NAN
Gaps == Split /\ rs # <<>> => \A i \in 1..Len(rs) : rs[i][1] = NAN =>
            LET q == GapR(rs, i)
            IN \A j \in 1..rs[i][2] : LET f == S!Filled(x, StartOf(rs, i) + j)
                                      IN IF q[1] = NAN THEN f[1] = NAN
                                         ELSE f[1] * q[3] = (q[1] * q[3] + j * q[2]) * f[2]
=============================================================================

------------------------------ MODULE InterpLoop ------------------------------
(* C13: a batch of queries on one grid, served in any order, each by its own  *)
(* bisection; no query sees what another one left behind.                     *)
EXTENDS Interp, Emit
CONSTANTS Grid, MaxN, Batch, FpSel
VARIABLES xp, fp, todo, q, lo, hi, res
vars == <<xp, fp, todo, q, lo, hi, res>>

\* x in half units: grid points are even
Queries == {NAN} \cup ((0 - 1)..(2 * Max(Grid) + 1))
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Grids == {[i \in 1..Len(s) |-> 2 * s[i]] : s \in {t \in SeqsOf(Grid, 0..MaxN) : Increasing(t)}}
Fps(n) == {[i \in 1..n |-> FpSel[k][((i - 1) % Len(FpSel[k])) + 1]] : k \in 1..Len(FpSel)}

Init == /\ xp \in Grids /\ fp \in Fps(Len(xp))
        /\ todo \in {s \in SUBSET Queries : Cardinality(s) = Batch}
        /\ q = ODD /\ lo = 0 /\ hi = 0 /\ res = <<>>
\* Any query may be next
Pick == /\ q = ODD /\ todo # {}
        /\ \E v \in todo :
            /\ todo' = todo \ {v}
            /\ IF Where(v, xp)[1] = "nan" \/ xp[1] = v \/ xp[Len(xp)] = v
               THEN /\ res' = Append(res, <<v, Value(v, xp, fp)>>)
                    /\ UNCHANGED <<q, lo, hi>>
               ELSE q' = v /\ lo' = 1 /\ hi' = Len(xp) /\ UNCHANGED res
        /\ UNCHANGED <<xp, fp>>
Narrow == /\ q # ODD /\ hi > lo + 1
          /\ LET m == (lo + hi) \div 2 IN
             IF xp[m] <= q THEN lo' = m /\ UNCHANGED hi ELSE hi' = m /\ UNCHANGED lo
          /\ UNCHANGED <<xp, fp, todo, q, res>>
Answer == /\ q # ODD /\ hi = lo + 1
          /\ res' = Append(res, <<q, IF xp[lo] = q THEN <<fp[lo], 1>>
                                     ELSE <<fp[lo] * (xp[hi] - q) + fp[hi] * (q - xp[lo]), xp[hi] - xp[lo]>>>>)
          /\ q' = ODD /\ UNCHANGED <<xp, fp, todo, lo, hi>>
Next == Pick \/ Narrow \/ Answer
Spec == Init /\ [][Next]_vars

Bracket == q # ODD => xp[lo] <= q /\ q < xp[hi] /\ hi > lo
Right == \A k \in 1..Len(res) : res[k][2] = Value(res[k][1], xp, fp)
Clamped == \A k \in 1..Len(res) : ~IsNaN(res[k][2][1]) =>
              res[k][2][1] >= res[k][2][2] * Min(Range(fp)) /\ res[k][2][1] <= res[k][2][2] * Max(Range(fp))
Shrinks == [][q # ODD /\ q' = q => hi' - lo' < hi - lo]_vars
Emitted == todo = {} /\ q = ODD =>
    EmitCase([xp |-> xp, fp |-> fp, x |-> [k \in 1..Len(res) |-> res[k][1]],
              num |-> [k \in 1..Len(res) |-> res[k][2][1]], den |-> [k \in 1..Len(res) |-> res[k][2][2]]])

Fp3 == <<<<4, -3, 0, 9, 2>>, <<1, 1, 2, 5, 30>>>>
=============================================================================

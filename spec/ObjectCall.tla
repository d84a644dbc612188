----------------------------- MODULE ObjectCall -----------------------------
(* C22: a call works through the rows of a batch, one operation of an element *)
(* at a time; operation number m raises an exception (m = 0: none does).      *)
EXTENDS Objects, Emit
CONSTANTS Fns, Data, Lens, Rows, MaxOps, TheOps, Targets,
          Fault        \* "none", or a fault of the design that the invariants must notice
VARIABLES fn, op, t, x, m, r, k, lo, hi, stage, nops, err, temps, refs, out
vars == <<fn, op, t, x, m, r, k, lo, hi, stage, nops, err, temps, refs, out>>

TakesOp == {"ordered", "argfirst", "first"}
TakesT == {"argfirst", "first", "searchsortedl", "searchsortedr"}
Cross == {"cross2", "cross3"}
Init == /\ fn \in Fns /\ op \in (IF fn \in TakesOp THEN TheOps ELSE {"LT"})
        /\ t \in (IF fn \in TakesT THEN Targets ELSE {0})
        /\ \E n \in (IF fn = "cross2" THEN {2} ELSE IF fn = "cross3" THEN {3} ELSE Lens) :
             x \in [1..Rows -> [1..n -> Data]]
        /\ (fn \in {"searchsortedl", "searchsortedr"}) => \A q \in 1..Rows : \A i \in 1..(Len(x[q]) - 1) : x[q][i] <= x[q][i + 1]
        /\ m \in 0..MaxOps
        /\ r = 1 /\ k = 1 /\ lo = 1 /\ hi = 1 /\ stage = "start" /\ nops = 0 /\ err = 0 /\ temps = 0
        /\ refs = 0 /\ out = <<>>

Row == x[r]
N == Len(Row)
Rec == <<fn, op, t, x, m>>
\* the end of a row: its results, the references that they hold, and the next row
EndRow(res, held) ==
  /\ out' = Append(out, res) /\ refs' = refs + held /\ temps' = 0
  /\ IF r < Rows THEN r' = r + 1 /\ stage' = "start" ELSE r' = r /\ stage' = "done"
Raise == /\ err' = (IF err = 0 THEN nops + 1 ELSE err)
         /\ temps' = (IF Fault = "leak" THEN temps ELSE 0)
         /\ IF Fault = "goon" /\ r < Rows THEN r' = r + 1 /\ stage' = "start" ELSE r' = r /\ stage' = "done"
         /\ UNCHANGED <<out, refs, k, lo, hi>>
\* every operation counts, and may raise
Act(effect) == /\ nops' = nops + 1
               /\ IF nops + 1 = m THEN Raise ELSE effect /\ UNCHANGED err
               /\ UNCHANGED Rec
Go(s) == stage' = s /\ UNCHANGED <<r, out, refs, temps>>

Held == CASE fn = "minmax" -> 2 [] fn \in {"min_argmin", "max_argmax", "first", "peaktopeak", "cross2"} -> 1 [] fn = "cross3" -> 3 [] OTHER -> 0
Scans == {"argmin", "argmax", "minmax", "argminmax", "min_argmin", "max_argmax", "peaktopeak", "all_same", "ordered"}
TwoSided == {"minmax", "argminmax", "peaktopeak"}

Start == /\ stage = "start" /\ k' = (IF fn \in Scans THEN 2 ELSE 1) /\ lo' = 1 /\ hi' = 1
         /\ IF fn \in Cross THEN Go("first product")
            ELSE IF fn \in {"searchsortedl", "searchsortedr"} THEN Go("probe")
            ELSE Go(IF fn \in {"argmax", "max_argmax"} THEN "gt" ELSE "lt")
         /\ UNCHANGED <<nops, err>> /\ UNCHANGED Rec
\* the results of a row from what the scan found
Found == CASE fn = "argmin" -> <<lo - 1>> [] fn = "argmax" -> <<hi - 1>>
           [] fn = "minmax" -> <<Row[lo], Row[hi]>> [] fn = "argminmax" -> <<lo - 1, hi - 1>>
           [] fn = "min_argmin" -> <<Row[lo], lo - 1>> [] fn = "max_argmax" -> <<Row[hi], hi - 1>>
           [] fn \in {"all_same", "ordered"} -> <<1>>
           [] fn = "argfirst" -> <<-1>> [] fn = "first" -> <<-77>> [] OTHER -> <<0>>
EndScan == /\ stage \in {"lt", "gt"} /\ k > N
           /\ IF fn = "peaktopeak" THEN Go("difference") ELSE EndRow(Found, Held)
           /\ UNCHANGED <<k, lo, hi, nops, err>> /\ UNCHANGED Rec
Scan == /\ stage \in {"lt", "gt"} /\ k <= N
        /\ LET v == Row[k]
               low == stage = "lt" /\ v < Row[lo]
               high == stage = "gt" /\ v > Row[hi]
           IN CASE fn = "all_same" ->
                     Act(IF v # Row[1] THEN EndRow(<<0>>, 0) /\ UNCHANGED <<k, lo, hi>> ELSE Go(stage) /\ k' = k + 1 /\ UNCHANGED <<lo, hi>>)
                [] fn = "ordered" ->
                     Act(IF ~Sat(Row[k - 1], op, v) THEN EndRow(<<0>>, 0) /\ UNCHANGED <<k, lo, hi>>
                         ELSE Go(stage) /\ k' = k + 1 /\ UNCHANGED <<lo, hi>>)
                [] fn \in {"first", "argfirst"} ->
                     Act(IF Sat(v, op, t) THEN EndRow(<<IF fn = "first" THEN v ELSE k - 1>>, Held) /\ UNCHANGED <<k, lo, hi>>
                         ELSE Go(stage) /\ k' = k + 1 /\ UNCHANGED <<lo, hi>>)
                [] OTHER ->
                     Act(/\ lo' = (IF low THEN k ELSE lo) /\ hi' = (IF high THEN k ELSE hi)
                         /\ IF fn \in TwoSided /\ stage = "lt" /\ ~low THEN Go("gt") /\ UNCHANGED k
                            ELSE k' = k + 1 /\ Go(IF fn \in TwoSided THEN "lt" ELSE stage))
Difference == stage = "difference" /\ Act(EndRow(<<Row[hi] - Row[lo]>>, 1) /\ UNCHANGED <<k, lo, hi>>)
\* bisection: lo = elements known to be on the left
Probe == /\ stage = "probe"
         /\ IF lo > N \/ k > N THEN EndRow(<<k - 1>>, 0) /\ UNCHANGED <<k, lo, hi, nops, err>> /\ UNCHANGED Rec
            ELSE Act(IF (fn = "searchsortedl" /\ Row[k] < t) \/ (fn = "searchsortedr" /\ Row[k] <= t)
                        THEN k' = k + 1 /\ Go("probe") /\ UNCHANGED <<lo, hi>>
                     ELSE EndRow(<<k - 1>>, 0) /\ UNCHANGED <<k, lo, hi>>)
\* k counts the determinants of a row; the products and the earlier results are temporaries
NDets == IF fn = "cross2" THEN 1 ELSE 3
Product == /\ stage \in {"first product", "second product"}
           /\ Act(/\ temps' = temps + 1 /\ stage' = (IF stage = "first product" THEN "second product" ELSE "subtract")
                  /\ UNCHANGED <<r, k, lo, hi, out, refs>>)
Subtract == /\ stage = "subtract"
            /\ Act(IF k = NDets THEN EndRow(Result(fn, Row, op, t), Held) /\ UNCHANGED <<k, lo, hi>>
                   ELSE /\ temps' = temps - 1 /\ k' = k + 1 /\ stage' = "first product"
                        /\ UNCHANGED <<r, lo, hi, out, refs>>)
Next == Start \/ EndScan \/ Scan \/ Difference \/ Probe \/ Product \/ Subtract
Spec == Init /\ [][Next]_vars
Done == stage = "done"
\* nothing runs after an exception, and the exception that arrives is the one raised
Stops == Done /\ err > 0 => nops = err /\ err = m
NoResult == Done /\ err > 0 => Len(out) < Rows
Balanced == Done => temps = 0 /\ refs = Len(out) * Held
Right == Done /\ err = 0 => out = [q \in 1..Rows |-> Result(fn, x[q], op, t)]
\* at most two operations for each element of a row (cross: three for each determinant)
Few == nops <= Rows * (IF fn \in Cross THEN 9 ELSE 2 * Len(x[1]))
Emitted == Done /\ m = 0 => EmitCase([fn |-> fn, op |-> op, t |-> t, x |-> x, out |-> out])
=============================================================================

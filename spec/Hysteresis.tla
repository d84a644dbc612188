----------------------------- MODULE Hysteresis -----------------------------
(* C10: backlash (play) operators, their weighted sum, and the relay.         *)
(* The values of a signal are integers in units in which the half band is an  *)
(* integer too; for arbitrary floating-point data a record carries the ranks  *)
(* of x - halfband and x + halfband instead, as only their order matters.     *)
EXTENDS Vals

\* One step of a play operator with the band <<lo, hi>> around the input
PlayStep(y, lo, hi) == IF lo > y THEN lo ELSE IF hi < y THEN hi ELSE y
Play(y, x, h) == PlayStep(y, x - h, x + h)

\* The states of a play operator: los[k] and his[k] are the band at step k
PlayStates(y0, los, his) ==
    Tail(FoldLeft(LAMBDA acc, k : Append(acc, PlayStep(acc[Len(acc)], los[k], his[k])),
                  <<y0>>, [k \in 1..Len(los) |-> k]))
PlayOut(y0, x, h) == PlayStates(y0, [k \in 1..Len(x) |-> x[k] - h], [k \in 1..Len(x) |-> x[k] + h])

LastOr(s, d) == IF s = <<>> THEN d ELSE s[Len(s)]

\* backlash_sum: m play operators with half bands hs, weights ws, initial states y0
SumOut(x, ws, hs, y0) ==
    LET st == [j \in 1..Len(hs) |-> PlayOut(y0[j], x, hs[j])]
    IN [k \in 1..Len(x) |-> SumSeq([j \in 1..Len(hs) |-> ws[j] * st[j][k]])]
SumFinal(x, hs, y0) == [j \in 1..Len(hs) |-> LastOr(PlayOut(y0[j], x, hs[j]), y0[j])]

\* The relay only compares x with its thresholds; lv, hv, y are any values
RelayStep(y, x, lo, hi, lv, hv) == IF x < lo THEN lv ELSE IF x > hi THEN hv ELSE y
RelayOut(y0, x, lo, hi, lv, hv) ==
    Tail(FoldLeft(LAMBDA acc, v : Append(acc, RelayStep(acc[Len(acc)], v, lo, hi, lv, hv)), <<y0>>, x))

HysteresisFailures(e) ==
    CASE e.fn = "backlash" ->
            IF e.out = PlayOut(e.y0, e.x, e.h) THEN {} ELSE {"backlash"}
      [] e.fn = "backlash-ranks" ->
            IF e.out = PlayStates(e.y0, e.xm, e.xp) THEN {} ELSE {"backlash"}
      [] e.fn = "backlash_sum" ->
            (IF e.out = SumOut(e.x, e.ws, e.hs, e.y0) THEN {} ELSE {"backlash_sum"})
            \cup (IF e.final = SumFinal(e.x, e.hs, e.y0) THEN {} ELSE {"backlash_sum-final"})
      [] e.fn = "hysteresis_relay" ->
            IF e.out = RelayOut(e.y0, e.x, e.lo, e.hi, e.lv, e.hv) THEN {} ELSE {"hysteresis_relay"}
      [] e.fn = "chunks" ->      \* outputs of consecutive calls against one call
            IF FlattenSeq(e.parts) = e.whole /\ e.pfinal = e.wfinal THEN {} ELSE {e.of \o "-chunks"}
=============================================================================

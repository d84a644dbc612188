---------------------------- MODULE ResourceLoop ----------------------------
(* A call over Rows rows.  It asks for scratch memory, once for the call or   *)
(* for each row, Blocks blocks each time, uses them and gives them back.  The *)
(* Fail-th request is refused (0: none).  The call is made Times times, and   *)
(* once more with no refusal.  Fault:                                         *)
(*   "blind"   a refused block is used as if it had been given                *)
(*   "early"   the call returns at a refusal with the blocks it already has   *)
(*   "silent"  it returns without an error                                    *)
(*   "last"    the blocks of the last row are not given back                  *)
EXTENDS Resources, Emit
CONSTANTS MaxRows, MaxBlocks, Times, Fault
VARIABLES rows, blocks, perrow, fail, t, row, have, asked, held, st, err, log
vars == <<rows, blocks, perrow, fail, t, row, have, asked, held, st, err, log>>

Init == /\ rows \in 0..MaxRows /\ blocks \in 1..MaxBlocks /\ perrow \in BOOLEAN
        /\ fail \in 0..(MaxRows * MaxBlocks + 1)
        /\ t = 1 /\ row = 0 /\ have = 0 /\ asked = 0 /\ held = 0
        /\ st = "ask" /\ err = "" /\ log = <<>>

Refused == t <= Times /\ asked + 1 = fail
GiveUp == IF Fault = "early" THEN have ELSE 0

\* one request
Ask == /\ st = "ask" /\ row < rows /\ have < blocks
       /\ asked' = asked + 1
       /\ IF Refused /\ Fault = "blind" THEN st' = "dead" /\ UNCHANGED <<have, held, err>>
          ELSE IF Refused THEN /\ st' = "end"
                               /\ err' = (IF Fault = "silent" THEN "" ELSE "MemoryError")
                               /\ held' = held + GiveUp
                               /\ have' = 0
          ELSE have' = have + 1 /\ UNCHANGED <<st, held, err>>
       /\ UNCHANGED <<rows, blocks, perrow, fail, t, row, log>>

\* the row is computed; scratch of the row is given back
Row == /\ st = "ask" /\ row < rows /\ have = blocks
       /\ row' = row + 1
       /\ IF perrow \/ row + 1 = rows
          THEN /\ have' = 0
               /\ held' = held + (IF Fault = "last" /\ row + 1 = rows THEN have ELSE 0)
          ELSE UNCHANGED <<have, held>>
       /\ UNCHANGED <<rows, blocks, perrow, fail, t, asked, st, err, log>>

Stop == /\ st = "ask" /\ row = rows
        /\ st' = "end"
        /\ UNCHANGED <<rows, blocks, perrow, fail, t, row, have, asked, held, err, log>>

\* the outcome of the call is noted; the next one starts
Again == /\ st = "end"
         /\ log' = Append(log, [err |-> err, hit |-> t <= Times /\ fail # 0 /\ asked >= fail, held |-> held, done |-> row = rows])
         /\ IF t <= Times THEN t' = t + 1 /\ st' = "ask" ELSE t' = t /\ st' = "done"
         /\ row' = 0 /\ have' = 0 /\ asked' = 0 /\ err' = ""
         /\ UNCHANGED <<rows, blocks, perrow, fail, held>>

Next == Ask \/ Row \/ Stop \/ Again
Spec == Init /\ [][Next]_vars

Alive == st # "dead"
Event == [k |-> "fault", blocks |-> [k \in 1..Times |-> log[k].held], reps |-> 1, refs |-> [k \in 1..Times |-> 0],
          own |-> [k \in 1..Times |-> log[k].held - (IF k = 1 THEN 0 ELSE log[k - 1].held)],
          err |-> [k \in 1..Times |-> log[k].err], hit |-> [k \in 1..Times |-> log[k].hit],
          same |-> [k \in 1..Times |-> log[k].done], base |-> "", after |-> log[Times + 1].err = "" /\ log[Times + 1].done]
\* what ends is what the specification allows, and nothing is held
Allowed == st = "done" => ResourcesFailures(Event) = {}
Clean == st = "done" => held = 0
\* the work that is asked for is done unless a request was refused
Complete == st = "done" => \A k \in DOMAIN log : log[k].err = "" => log[k].done
Emitted == (st = "done" /\ blocks = 1 /\ perrow) => EmitCase([rows |-> rows, fail |-> fail])
=============================================================================

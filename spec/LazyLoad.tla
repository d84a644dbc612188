------------------------------ MODULE LazyLoad ------------------------------
(* C23: modules are loaded at the first access to one of their names; a name  *)
(* is looked up in the module every time.  Objects are numbered as they are   *)
(* made: loading a module makes its objects.                                  *)
EXTENDS Names, Emit, SequencesExt
CONSTANTS Steps,        \* length of the histories
          Fault
\* representatives: names that share a module, wrappers, a submodule, eager names
Table == [minmax |-> "_minmax", argmin |-> "_minmax", bincount |-> "_wrapped", one_hot |-> "_wrapped",
          gendot |-> "_gendot_wrap", gmean |-> "_means", semivar |-> "semivar", first |-> "_first", op |-> "",
          erfcx |-> "normal", normal |-> "normal", percentileofscore |-> "_percentileofscore"]
NamesOf == DOMAIN Table
Modules == {Table[n] : n \in NamesOf} \ {""}
VARIABLES loaded,   \* modules
          made,     \* name -> number of the object, 0: not made
          next, hist, seen
vars == <<loaded, made, next, hist, seen>>
At0 == {n \in NamesOf : n \in Eager}
Init == /\ loaded = {Table[n] : n \in At0} \ {""}
        /\ made = [n \in NamesOf |-> IF n \in At0 THEN CHOOSE k \in 1..Cardinality(At0) : SetToSeq(At0)[k] = n ELSE 0]
        /\ next = Cardinality(At0) + 1 /\ hist = <<>> /\ seen = {}
\* the objects of a module are made when it is loaded for the first time
Load(m) == IF m = "" \/ (m \in loaded /\ Fault # "reload") THEN UNCHANGED <<loaded, made, next>>
           ELSE /\ loaded' = loaded \cup {m}
                /\ made' = [n \in NamesOf |-> IF Table[n] = m /\ n \notin Eager THEN next ELSE made[n]]
                /\ next' = next + 1
Step(how, n) == /\ Len(hist) < Steps
                /\ hist' = Append(hist, <<how, n>>)
Use(how, n) == /\ Step(how, n) /\ Load(Table[n])
               /\ seen' = seen \cup {<<n, made'[n]>>}
Star == /\ Step("star", "*")
        /\ LET ms == {Table[n] : n \in NamesOf \ Unlisted} \ (loaded \cup {""})
           IN /\ loaded' = loaded \cup ms
              /\ made' = [n \in NamesOf |-> IF made[n] = 0 /\ Table[n] \in ms THEN next ELSE made[n]]
              /\ next' = next + 1
              /\ seen' = seen \cup {<<n, made'[n]>> : n \in NamesOf \ Unlisted}
Other(how, n) == Step(how, n) /\ UNCHANGED <<loaded, made, next, seen>>
Module(m) == Step("module", m) /\ Load(m) /\ UNCHANGED seen
Next == \/ \E n \in NamesOf, how \in {"attr", "from", "pickle"} : Use(how, n)
        \/ \E g \in {"nosuchname", "Minmax"}, how \in {"attr", "from", "pickle"} : Other(how, g)
        \/ \E m \in {"_minmax", "semivar", "_wrapped", "normal"} : Module(m)
        \/ Star \/ Other("dir", "*")
Spec == Init /\ [][Next]_vars
\* whatever the order, a name has been one object
Same == \A p, q \in seen : p[1] = q[1] => p[2] = q[2]
Reached == \A p \in seen : p[2] # 0
\* loading is monotone and complete
Coherent == \A n \in NamesOf : (made[n] # 0) <=> (n \in Eager \/ Table[n] \in loaded)
Emitted == Len(hist) = Steps => EmitCase([h |-> hist])
=============================================================================

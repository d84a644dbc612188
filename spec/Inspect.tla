------------------------------- MODULE Inspect -------------------------------
(* What ufunc_inspector tells about a ufunc, from its signature, its loop     *)
(* types and its registered loops.                                            *)
(* A signature is a sequence of arguments, an argument a sequence of core     *)
(* dimensions [n, q]: n is a name or a number, q says that it may be absent.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

RECURSIVE Concat(_, _)
Concat(s, k) == IF k > Len(s) THEN <<>> ELSE s[k] \o Concat(s, k + 1)
All(sig) == Concat(sig, 1)

\* the distinct dimensions, in the order in which they first appear
IsFirst(a, k) == \A j \in 1..k - 1 : a[j].n # a[k].n
RECURSIVE Firsts(_, _)
Firsts(a, k) == IF k > Len(a) THEN <<>> ELSE (IF IsFirst(a, k) THEN <<a[k]>> ELSE <<>>) \o Firsts(a, k + 1)
Dims(sig) == Firsts(All(sig), 1)
IndexOf(sig, d) == (CHOOSE k \in DOMAIN Dims(sig) : Dims(sig)[k].n = d.n) - 1

\* for each argument: how many dimensions, which, and where they start in the list of all
NumDims(sig) == [k \in DOMAIN sig |-> Len(sig[k])]
DimIxs(sig) == [k \in DOMAIN sig |-> [j \in DOMAIN sig[k] |-> IndexOf(sig, sig[k][j])]]
RECURSIVE Offset(_, _)
Offset(sig, k) == IF k = 1 THEN 0 ELSE Offset(sig, k - 1) + Len(sig[k - 1])
Offsets(sig) == [k \in DOMAIN sig |-> Offset(sig, k)]

\* sizes: of a dimension named by a number, that number; f gives the numbers of the names
Sizes(sig, f) == [k \in DOMAIN Dims(sig) |-> IF Dims(sig)[k].n \in DOMAIN f THEN f[Dims(sig)[k].n] ELSE -1]
Flags(sig, f) == [k \in DOMAIN Dims(sig) |->
                    (IF Dims(sig)[k].n \in DOMAIN f THEN {} ELSE {"SIZE_INFERRED"})
                    \cup (IF Dims(sig)[k].q THEN {"CAN_IGNORE"} ELSE {})]

TypeChar == <<"?", "b", "B", "h", "H", "i", "I", "l", "L", "q", "Q", "f", "d", "g", "F", "D", "G", "O", "S", "U", "V", "M", "m", "e">>
TypeNum(c) == (CHOOSE k \in DOMAIN TypeChar : TypeChar[k] = c) - 1

\* the loops are told of a ufunc with one output and up to four inputs
Told(nin, nout) == nin \in 1..4 /\ nout = 1
Loops(types) == [k \in DOMAIN types |-> [i |-> k - 1, nums |-> [j \in DOMAIN types[k] |-> TypeNum(types[k][j])], chars |-> types[k]]]

InspectFailures(e) ==
    CASE e.k = "unreadable" -> {"unreadable"}
      [] e.k = "other" -> (IF e.said = "Not a ufunc." THEN {} ELSE {"other-object"}) \cup (IF e.none THEN {} ELSE {"result-not-none"})
      [] e.k = "ufunc" ->
            (IF e.none THEN {} ELSE {"result-not-none"})
            \cup (IF e.s.name = e.name THEN {} ELSE {"name"})
            \cup (IF e.s.nin = e.nin /\ e.s.nout = e.nout THEN {} ELSE {"nin-nout"})
            \cup (IF e.s.ntypes = Len(e.types) THEN {} ELSE {"ntypes"})
            \cup (IF e.s.gufunc = e.gufunc THEN {} ELSE {"kind"})
            \cup (IF e.gufunc /\ e.s.gufunc
                  THEN (IF e.s.text = e.text THEN {} ELSE {"signature"})
                       \cup (IF e.s.ndims = Len(Dims(e.sig)) THEN {} ELSE {"number-of-dimensions"})
                       \cup (IF e.s.sizes = Sizes(e.sig, e.fixed) THEN {} ELSE {"sizes"})
                       \cup (IF Len(e.s.flags) = Len(Dims(e.sig)) /\ \A k \in DOMAIN e.s.flags :
                                    {e.s.flags[k][j] : j \in DOMAIN e.s.flags[k]} \ {"MISSING"} = Flags(e.sig, e.fixed)[k]
                             THEN {} ELSE {"flags"})
                       \cup (IF e.s.numdims = NumDims(e.sig) THEN {} ELSE {"core-dimensions-of-arguments"})
                       \cup (IF e.s.ixs = DimIxs(e.sig) THEN {} ELSE {"dimension-indices"})
                       \cup (IF e.s.offsets = Offsets(e.sig) THEN {} ELSE {"offsets"})
                       \cup (IF e.s.nops = e.nin + e.nout THEN {} ELSE {"operand-flags"})
                  ELSE {})
            \cup (IF \/ [k \in DOMAIN e.s.loops |-> [i |-> e.s.loops[k].i, nums |-> e.s.loops[k].nums, chars |-> e.s.loops[k].chars]] = Loops(e.types)
                     \/ ~Told(e.nin, e.nout) /\ e.s.loops = <<>>
                  THEN {} ELSE {"loop-types"})
            \cup (IF \A k \in DOMAIN e.s.loops : k \in DOMAIN e.generic /\ e.generic[k] # "unknown" => e.s.loops[k].generic = e.generic[k]
                  THEN {} ELSE {"generic-loops"})
            \cup (IF {e.s.user[k] : k \in DOMAIN e.s.user} = {e.user[k] : k \in DOMAIN e.user} /\ Len(e.s.user) = Len(e.user)
                  THEN {} ELSE {"registered-loops"})
      [] OTHER -> {"unknown-event"}
=============================================================================

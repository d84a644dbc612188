-------------------------------- MODULE Names --------------------------------
(* C23: reaching the names of the package.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt, TLC

\* what is bound when the package is loaded; the rest is found on first access
Eager == {"first", "argfirst", "percentileofscore", "op", "erfcx", "normal"}
Sub == {"semivar", "normal"}                   \* public submodules
\* no such names: near misses of existing ones, private, dunder and dotted names, modules, ...
Ghosts == {"nosuchname", "numpy_", "Minmax", "", "_unknown", "__unknown__", "__wrapped__", "_", "__", ".", "..", "op.LT", "semivar.linear",
           "minmax ", " minmax", "MINMAX", "argmin_", "_argmin", "argminn", "argmi", "numpy.linalg", "_nothing.minmax", "tests.nothing",
           "first_", "normal2", "1", "__getattr", "__path", "import", "None", "gendot_", "bincount.gufunc", "_bincount0", "means"}
\* names that star-import does not bring: the submodules
Unlisted == {"normal", "semivar"}

(* A history of steps: how = "attr", "from", "star", "dir", "module" (of a    *)
(* submodule by its path), "pickle" (loaded by name from a pickle, dumped,    *)
(* loaded and copied: got lists every object of it); name; got = the   *)
(* numbers of the objects obtained, numbered by identity as they appear in    *)
(* the history: pairs <<name, number>>; err = exception.  e.unknown: names    *)
(* that a process which has loaded nothing else finds unknown: no history of  *)
(* other accesses makes them known.                                           *)
Got(h) == UNION {{h[i].got[k] : k \in DOMAIN h[i].got} : i \in DOMAIN h}
Single(h) == \A p, q \in Got(h) : p[1] = q[1] => p[2] = q[2]
NamesFailures(e) ==
  LET h == e.h
      unknown == {e.unknown[k] : k \in DOMAIN e.unknown}
      bad(i) == LET s == h[i] IN
        (IF s.name \in Ghosts /\ s.how = "attr" /\ s.err # "AttributeError" THEN {"unknown-name-accepted"} ELSE {})
        \cup (IF s.name \in Ghosts /\ s.how = "from" /\ s.err # "ImportError" THEN {"unknown-name-accepted"} ELSE {})
        \cup (IF s.name \in unknown /\ s.err = "" THEN {"unknown-name-appeared"} ELSE {})
        \cup (IF s.name \notin Ghosts \cup unknown /\ s.err # "" THEN {"name-not-reached"} ELSE {})
        \cup (IF s.name \in Ghosts /\ s.how = "pickle" /\ s.err = "" THEN {"unknown-name-accepted"} ELSE {})
        \cup (IF s.how = "pickle" /\ s.err = "" /\ s.got = <<>> THEN {"name-not-reached"} ELSE {})
        \cup (IF s.how \in {"attr", "from"} /\ s.err = "" /\ (Len(s.got) # 1 \/ s.got[1][1] # s.name) THEN {"name-not-reached"} ELSE {})
        \cup (IF s.how \in {"star", "dir"} /\ ~s.complete THEN {"incomplete-" \o s.how} ELSE {})
        \cup (IF ~s.right THEN {"wrong-object"} ELSE {})
  IN UNION {bad(i) : i \in DOMAIN h} \cup (IF Single(h) THEN {} ELSE {"not-the-same-object"})
=============================================================================

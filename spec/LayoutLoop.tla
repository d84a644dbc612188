----------------------------- MODULE LayoutLoop -----------------------------
(* The machine that runs a kernel over the elements of a batch, in any order, *)
(* on one input and one output view that may share memory.  The kernel works  *)
(* through memory step by step.  The rule for staging: when the output        *)
(* overlaps the input, the input is copied first, except that a kernel which  *)
(* reads an element before it writes it may work in place on the same view.   *)
(* Each configuration that is run is a layout to be tried on the real code.   *)
(* With Staging = FALSE nothing is copied, and the invariant Right must fail.  *)
EXTENDS Layout, Emit
CONSTANTS InSteps, OutSteps, Batch, Core, Shift, MaxShare, Staging
VARIABLES phase, cfg, mem0, mem, src, todo, cur, at, acc
vars == <<phase, cfg, mem0, mem, src, todo, cur, at, acc>>

Kernels == {"scan", "backward", "reduce", "each"}
Steps(S) == {k - Shift : k \in S}
Extent(v) == CellsOf(v, <<Batch>>)
\* the view moved so that its first cell is cell 1 + s
Place(v, s) == LET lo == Min({c[2] : c \in Extent(v)}) IN [v EXCEPT !.base = v.base - lo + 1 + s]
View(buf, bs, cs, n) == [buf |-> buf, base |-> 0, bs |-> <<bs>>, cs |-> IF n = 0 THEN <<>> ELSE <<cs>>,
                         cshape |-> IF n = 0 THEN <<>> ELSE <<n>>]

Cfgs == {[kernel |-> k, share |-> sh, a |-> Place(View(1, ab, ac, IF k = "each" THEN 0 ELSE Core), IF sh = 2 THEN 1 ELSE 0),
          o |-> Place(View(IF sh = 0 THEN 2 ELSE 1, ob, oc, IF k \in {"each", "reduce"} THEN 0 ELSE Core),
                      IF sh = 0 THEN 1 ELSE IF sh = 2 THEN 0 ELSE sh - 1)] :
         k \in Kernels, sh \in 0..MaxShare, ab \in Steps(InSteps), ac \in Steps(InSteps), ob \in Steps(OutSteps), oc \in Steps(OutSteps)}
\* an output has one cell for each of its elements
Canon(c) == Injective(c.o, <<Batch>>)

Size(c) == 1 + Max({x[2] : x \in Extent(c.a)} \cup {x[2] : x \in Extent(c.o)})
Fresh(c) == [q \in 1..2 |-> [a \in 1..Size(c) |-> <<q * 100 + a>>]]

\* the function the kernel computes: results record what they were computed from
ResultOf(kernel, s, i) ==
    CASE kernel = "scan" -> <<i>> \o FlattenSeq(SubSeq(s, 1, i))
      [] kernel = "backward" -> <<i>> \o FlattenSeq(SubSeq(s, i, Len(s)))
      [] kernel = "reduce" -> <<0>> \o FlattenSeq(s)
      [] kernel = "each" -> <<9>> \o s[1]
Expected(c, m) == LET G(t) == IF c.kernel \in {"scan", "backward"}
                              THEN <<[i \in 1..Core |-> ResultOf(c.kernel, t[1], i)]>>
                              ELSE <<<<ResultOf(c.kernel, t[1], 0)>>>>
                  IN AfterCall(m, <<c.a>>, <<c.o>>, <<Batch>>, [k \in 1..Batch |-> TRUE], G)

Overlap(c) == Extent(c.a) \cap Extent(c.o) # {}
SameView(c) == c.a = c.o
MustCopy(c) == Overlap(c) /\ ~(c.kernel = "each" /\ SameView(c))

Init == /\ phase = "choose" /\ cfg = <<>> /\ mem0 = <<>> /\ mem = <<>> /\ src = "live" /\ todo = {} /\ cur = 0 /\ at = 0 /\ acc = <<>>

Choose == /\ phase = "choose"
          /\ \E c \in {x \in Cfgs : Canon(x)} :
                /\ cfg' = c
                /\ mem0' = Fresh(c) /\ mem' = Fresh(c)
                /\ src' = IF MustCopy(c) /\ Staging THEN "copy" ELSE "live"
          /\ phase' = "pick" /\ todo' = 1..Batch
          /\ UNCHANGED <<cur, at, acc>>

\* read element i of the current input slice, from live memory or from the copy
Read(i) == LET m == IF src = "copy" THEN mem0 ELSE mem
           IN SliceAt(m, cfg.a, BatchOff(cfg.a, <<Batch>>)[cur])[i]
Write(i, val) == LET off == cfg.o.base + BatchOff(cfg.o, <<Batch>>)[cur] + CoreOff(cfg.o)[i]
                 IN mem' = [mem EXCEPT ![cfg.o.buf][off] = val]
NIn == Len(CoreOff(cfg.a))

Pick == /\ phase = "pick" /\ todo # {}
        /\ \E b \in todo : cur' = b /\ todo' = todo \ {b}
        /\ at' = IF cfg.kernel = "backward" THEN NIn ELSE 1
        /\ acc' = <<>> /\ phase' = "run"
        /\ UNCHANGED <<cfg, mem0, mem, src>>

Step == /\ phase = "run"
        /\ at \in 1..NIn
        /\ acc' = IF cfg.kernel = "backward" THEN Read(at) \o acc ELSE acc \o Read(at)
        /\ IF cfg.kernel \in {"scan", "backward"} THEN Write(at, <<at>> \o acc')
           ELSE IF at = NIn THEN Write(1, <<IF cfg.kernel = "each" THEN 9 ELSE 0>> \o acc')
           ELSE mem' = mem
        /\ at' = IF cfg.kernel = "backward" THEN at - 1 ELSE at + 1
        /\ UNCHANGED <<phase, cfg, mem0, src, todo, cur>>

Next1 == /\ phase = "run" /\ at \notin 1..NIn
         /\ phase' = IF todo = {} THEN "done" ELSE "pick"
         /\ UNCHANGED <<cfg, mem0, mem, src, todo, cur, at, acc>>

Next == Choose \/ Pick \/ Step \/ Next1
Spec == Init /\ [][Next]_vars

\* the memory at the end is the one the definition gives, whatever the order of the batch
Right == phase = "done" => mem = Expected(cfg, mem0)
\* on the way, only cells of the output change
Frame == phase \in {"pick", "run", "done"} =>
            \A q \in 1..Len(mem), a \in 1..Len(mem0[1]) : mem[q][a] = mem0[q][a] \/ <<q, a>> \in Extent(cfg.o)
Emitted == phase = "pick" /\ todo = 1..Batch =>
    EmitCase([kernel |-> cfg.kernel, share |-> cfg.share, a |-> [bs |-> cfg.a.bs, cs |-> cfg.a.cs, base |-> cfg.a.base],
              o |-> [bs |-> cfg.o.bs, cs |-> cfg.o.cs, base |-> cfg.o.base], same |-> SameView(cfg), copy |-> MustCopy(cfg)])
=============================================================================

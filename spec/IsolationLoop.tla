--------------------------- MODULE IsolationLoop ---------------------------
(* Calls that accumulate over their elements, each in the frame of its own    *)
(* call, in several threads, nested and interleaved in every way.  With       *)
(* Scratch = "static" the accumulator is one place shared by all calls, with  *)
(* "reused" it is local but not reset, with "lent" a call returns a place     *)
(* that later calls write to: the invariant Isolated must fail then.  A       *)
(* result is a place in memory; who holds it can read it at any later time.   *)
EXTENDS Isolation, Emit
CONSTANTS Threads, NCalls, Len0, MaxDepth, Scratch
VARIABLES stack, todo, shared, res, mem, h
vars == <<stack, todo, shared, res, mem, h>>

Input(c, k) == 10 ^ c * (k + 1)
Value(c) == SumSeq([k \in 1..Len0 |-> Input(c, k - 1)])
Ev(t, a, c) == [t |-> t, a |-> a, c |-> c]

Init == /\ stack = [t \in Threads |-> <<>>]
        /\ todo = 1..NCalls
        /\ shared = 0
        /\ res = [c \in 1..NCalls |-> -1]
        /\ mem = [p \in 0..NCalls |-> 0]
        /\ h = <<>>

Top(t) == Last(stack[t])

\* a call begins: at the top of its thread, or in the middle of an operation of the call above it
Begin(t) == /\ todo # {}
            /\ Len(stack[t]) < MaxDepth
            /\ IF stack[t] = <<>> THEN TRUE ELSE Top(t).at < Len0
            /\ LET c == Min(todo)
               IN /\ stack' = [stack EXCEPT ![t] = Append(@, [c |-> c, at |-> 0, acc |-> 0])]
                  /\ todo' = todo \ {c}
                  /\ shared' = IF Scratch = "static" THEN 0 ELSE shared
                  /\ h' = Append(h, Ev(t, "begin", c))
            /\ UNCHANGED <<res, mem>>

Step(t) == /\ stack[t] # <<>> /\ Top(t).at < Len0
           /\ LET f == Top(t)
                  v == (IF Scratch \in {"local", "lent"} THEN f.acc ELSE shared) + Input(f.c, f.at)
              IN /\ stack' = [stack EXCEPT ![t] = Append(Front(@), [f EXCEPT !.at = @ + 1, !.acc = v])]
                 /\ shared' = IF Scratch \in {"local", "lent"} THEN shared ELSE v
                 /\ h' = Append(h, Ev(t, "step", f.c))
           /\ UNCHANGED <<todo, res, mem>>

End(t) == /\ stack[t] # <<>> /\ Top(t).at = Len0
          /\ LET f == Top(t)
                 place == IF Scratch = "lent" THEN 0 ELSE f.c
             IN /\ res' = [res EXCEPT ![f.c] = place]
                /\ mem' = [mem EXCEPT ![place] = IF Scratch \in {"local", "lent"} THEN f.acc ELSE shared]
                /\ h' = Append(h, Ev(t, "end", f.c))
          /\ stack' = [stack EXCEPT ![t] = Front(@)]
          /\ UNCHANGED <<todo, shared>>

Next == \E t \in Threads : Begin(t) \/ Step(t) \/ End(t)
Spec == Init /\ [][Next]_vars

Isolated == \A c \in 1..NCalls : res[c] # -1 => mem[res[c]] = Value(c)
Done == todo = {} /\ \A t \in Threads : stack[t] = <<>>
Proper == Done => ProperHistory(h)
Emitted == Done => EmitCase([h |-> h])
=============================================================================

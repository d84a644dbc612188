------------------------------ MODULE Isolation ------------------------------
(* A history is a sequence of events of calls: [t, a, c] is event a of call c *)
(* in thread t, where a is "begin", "step" or "end".  Within a thread calls   *)
(* nest (a call may begin in a step of another); across threads they          *)
(* interleave.  Whatever the history, the result of a call is a function of   *)
(* its own function and arguments.                                            *)
EXTENDS Vals

Events(h, t) == SelectSeq(h, LAMBDA e : e.t = t)
\* calls nest properly in each thread: the stack of open calls
RECURSIVE Stack(_, _)
Stack(s, st) ==
    IF s = <<>> THEN st
    ELSE LET e == Head(s)
         IN CASE e.a = "begin" -> Stack(Tail(s), Append(st, e.c))
              [] e.a = "end" /\ st # <<>> /\ Last(st) = e.c -> Stack(Tail(s), Front(st))
              [] e.a = "step" /\ st # <<>> /\ Last(st) = e.c -> Stack(Tail(s), st)
              [] OTHER -> <<-1>>
ProperHistory(h) == \A t \in {h[k].t : k \in 1..Len(h)} : Stack(Events(h, t), <<>>) = <<>>

(* A recorded history.  calls[i] has a function, arguments and an outcome     *)
(* (results, or the error raised); refs has, for every function and arguments *)
(* that occur, the outcome of that call as the first call of a new process.   *)
HistoryFailures(e) ==
    LET Same(c, r) == c.fn = r.fn /\ c.args = r.args
        Bad(c) == ~\E k \in 1..Len(e.refs) : Same(c, e.refs[k]) /\ e.refs[k].out = c.out
        contexts == {e.calls[k].ctx : k \in {j \in 1..Len(e.calls) : Bad(e.calls[j])}}
    IN  (IF \A k \in 1..Len(e.calls) : \E j \in 1..Len(e.refs) : Same(e.calls[k], e.refs[j]) THEN {} ELSE {"no-reference"})
     \cup (IF ProperHistory(e.h) THEN {} ELSE {"improper-history"})
     \cup {"depends-on-" \o x : x \in contexts}

(* A batch: rows[k] has the arguments and outcome of row k, and the outcome   *)
(* of the same row as a call of its own.                                      *)
BatchFailures(e) == IF \A k \in 1..Len(e.rows) : e.rows[k].out = e.rows[k].alone THEN {} ELSE {"depends-on-other-rows"}

IsolationFailures(e) == IF e.k = "history" THEN HistoryFailures(e) ELSE BatchFailures(e)
=============================================================================

----------------------------- MODULE ShapeBind -----------------------------
(* C21: the core dimensions are bound operand by operand, the outer           *)
(* dimensions joined as they come.                                            *)
EXTENDS Shapes, Emit
CONSTANTS Sizes, Odd,      \* core sizes; sizes that one dimension is changed to
          Many,            \* operands from which fewer outer shapes are tried
          Fault
VARIABLES g, s, j, bound, outer, ok
vars == <<g, s, j, bound, outer, ok>>
Sig == Signatures[g]
N(q) == Len(q.cin)
Few == {<<>>, <<2>>}
Some == {<<>>, <<1>>, <<3>>, <<2, 1>>, <<0>>}
VarsOf(q) == {q.cin[p[1]][p[2]] : p \in Places(q)} \cap (-9..-1)
Base(q, o, z) == [i \in 1..N(q) |-> o[i] \o [k \in DOMAIN q.cin[i] |-> IF q.cin[i][k] > 0 THEN q.cin[i][k] ELSE z[q.cin[i][k]]]]
\* the shape itself, without a dimension, with one more, and with a dimension of another size
Changed(x) == {x} \cup {[x EXCEPT ![i] = v] : i \in DOMAIN x, v \in Odd}
              \cup (IF x = <<>> THEN {} ELSE {SubSeq(x, 1, Len(x) - 1), Tail(x)}) \cup {<<3>> \o x}
Init == /\ g \in DOMAIN Signatures
        /\ \E o \in [1..N(Sig) -> IF N(Sig) >= Many THEN Few ELSE Some], z \in [VarsOf(Sig) -> Sizes], i \in 1..N(Sig) :
              LET b == Base(Sig, o, z) IN \E c \in Changed(b[i]) : s = [b EXCEPT ![i] = c]
        /\ j = 1 /\ bound = <<>> /\ outer = <<>> /\ ok = TRUE
\* bound: pairs <<variable, size>>
Value(v) == IF \E p \in DOMAIN bound : bound[p][1] = v THEN bound[CHOOSE p \in DOMAIN bound : bound[p][1] = v][2] ELSE -1
Takes(v, n) == IF v > 0 THEN n = v
               ELSE /\ n >= Sig.least
                    /\ (Value(v) = -1 \/ Value(v) = n \/ (Fault = "one" /\ n = 1))
Operand == /\ j <= N(Sig) /\ ok
           /\ LET c == Sig.cin[j]
                  x == s[j]
              IN IF Len(x) < Len(c) THEN ok' = FALSE /\ UNCHANGED <<bound, outer>>
                 ELSE LET core == Core(x, Len(c))
                          out == Outer(x, Len(c))
                          same == \A p, q \in DOMAIN c : c[p] = c[q] => core[p] = core[q]
                      IN IF same /\ (\A k \in DOMAIN c : Takes(c[k], core[k])) /\ Fits({outer, out})
                         THEN /\ bound' = bound \o [k \in DOMAIN c |-> <<c[k], core[k]>>]
                              /\ outer' = Joined({outer, out}) /\ UNCHANGED ok
                         ELSE ok' = FALSE /\ UNCHANGED <<bound, outer>>
           /\ j' = j + 1 /\ UNCHANGED <<g, s>>
Next == Operand
Spec == Init /\ [][Next]_vars
Done == j > N(Sig) \/ ~ok
Right == Done => ok = Accepted(Sig, s)
Results == Done /\ ok => OutShapes(Sig, s) = [i \in DOMAIN Sig.cout |-> outer \o
                                               [k \in DOMAIN Sig.cout[i] |-> IF Sig.cout[i][k] > 0 THEN Sig.cout[i][k]
                                                                             ELSE Value(Sig.cout[i][k])]]
Listed == (j = 1 /\ s = Base(Sig, [i \in 1..N(Sig) |-> <<>>], [v \in VarsOf(Sig) |-> 2])) =>
            EmitCase([g |-> g, names |-> Sig.names, cin |-> Sig.cin, cout |-> Sig.cout, least |-> Sig.least])
Emitted == Done => EmitCase([g |-> g, s |-> s, ok |-> ok, free |-> Vacuous(Sig, s), out |-> IF ok THEN OutShapes(Sig, s) ELSE <<>>])
=============================================================================

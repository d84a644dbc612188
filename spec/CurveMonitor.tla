------------------------------- MODULE CurveMonitor -------------------------------
(* What the monitors of Curves decide (C24).  A walk is a parabola (a curve,  *)
(* seen through tiny steps), each value off by at most E, with a jump of Jump *)
(* units at one place.  The monitor of smoothness accepts every walk without  *)
(* a jump, and rejects every jump of more than 8 * E + 1; the one of          *)
(* direction accepts a monotone curve whatever the errors.                    *)
EXTENDS Curves, TLC
CONSTANTS Slopes, Curv, Jumps, N, E, Use
VARIABLES slope, c, jump, at, v
vars == <<slope, c, jump, at, v>>
Init == slope \in Slopes /\ c \in Curv /\ jump \in Jumps /\ at \in 2..N /\ v = <<>>
\* twice the parabola, so that its bends are whole numbers
True2(k) == slope * k + (c * k * k) \div 8 + (IF k >= at THEN jump ELSE 0)
Next == /\ Len(v) < N
        /\ \E e \in (-E)..E : v' = Append(v, True2(Len(v) + 1) + e)
        /\ UNCHANGED <<slope, c, jump, at>>
Spec == Init /\ [][Next]_vars
Done == Len(v) = N
Sound == Done /\ jump = 0 => Smooth(v, Use)
Complete == Done /\ Abs(jump) > 8 * Use + 1 => ~Smooth(v, Use)
Steps(w) == [k \in 1..(Len(w) - 1) |-> w[k + 1] - w[k]]
Direction == Done /\ c = 0 /\ jump = 0 => /\ slope >= 0 => Runs(Steps(v), 1, Use)
                                          /\ slope <= 0 => Runs(Steps(v), -1, Use)
Reverse == Done /\ c = 0 /\ slope >= 0 /\ jump < -(4 * Use + slope) => ~Runs(Steps(v), 1, Use)
=============================================================================

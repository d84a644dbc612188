------------------------------ MODULE PlaceLoop ------------------------------
(* C08: the wrapper normalizes the axis, allocates the result and the loop    *)
(* writes the n values of one element of the batch per step.                  *)
EXTENDS Placement, Emit
CONSTANTS MaxDim, Sizes, Counts
VARIABLES bshape, n, axis, pc, i, out
vars == <<bshape, n, axis, pc, i, out>>

Init == /\ bshape \in SeqsOf(Sizes, 0..MaxDim)
        /\ n \in Counts \cup {-1}
        /\ axis \in -(MaxDim + 3)..(MaxDim + 2)
        /\ pc = "check" /\ i = 0 /\ out = <<>>
Reject == /\ pc = "check" /\ OutShape(bshape, n, axis) = <<-1>>
          /\ pc' = "error" /\ UNCHANGED <<bshape, n, axis, i, out>>
Allocate == /\ pc = "check" /\ OutShape(bshape, n, axis) # <<-1>>
            /\ pc' = "loop"
            /\ out' = [c \in 1..Prod(OutShape(bshape, n, axis)) |-> <<-1, -1>>]
            /\ UNCHANGED <<bshape, n, axis, i>>
Row == /\ pc = "loop" /\ i < Prod(bshape)
       /\ LET ax == NormAxis(axis, Len(bshape) + 1)
              bi == Unravel(bshape, i)
              os == OutShape(bshape, n, axis)
          IN out' = [c \in 1..Len(out) |->
                IF \E p \in 0..(n - 1) : Ravel(os, PutAt(bi, ax, p)) = c - 1
                THEN <<i, CHOOSE p \in 0..(n - 1) : Ravel(os, PutAt(bi, ax, p)) = c - 1>>
                ELSE out[c]]
       /\ i' = i + 1
       /\ UNCHANGED <<bshape, n, axis, pc>>
Finish == /\ pc = "loop" /\ i = Prod(bshape)
          /\ pc' = "done" /\ UNCHANGED <<bshape, n, axis, i, out>>
Next == Reject \/ Allocate \/ Row \/ Finish
Spec == Init /\ [][Next]_vars

\* A cell is written once, by its own row; at the end every cell is written
OwnRow == \A c \in 1..Len(out) :
    out[c] # <<-1, -1>> => out[c] = CellSource(bshape, n, axis, c - 1) /\ out[c][1] < i
WriteOnce == [][\A c \in 1..Len(out) : out[c] # <<-1, -1>> => out'[c] = out[c]]_vars
Complete == pc = "done" => \A c \in 1..Len(out) : out[c] # <<-1, -1>>
Emitted == pc \in {"done", "error"} =>
    EmitCase([bshape |-> bshape, n |-> n, axis |-> axis, ok |-> pc = "done",
              oshape |-> IF pc = "done" THEN OutShape(bshape, n, axis) ELSE <<>>,
              cells |-> out])
=============================================================================

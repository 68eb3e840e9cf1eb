------------------------------- MODULE Filter -------------------------------
(* Mirrored duplicates among swell components, in order of energy: c is        *)
(* [period |-> as printed, dir |-> <<degrees>> or <<>> when missing]           *)
EXTENDS Integers, Sequences
Opposite(a, b) == a # <<>> /\ b # <<>> /\ ((a[1] - b[1] + 540) % 360 <= 10 \/ (a[1] - b[1] + 540) % 360 >= 350)
Leader(C, j) == CHOOSE i \in 1..j : C[i].period = C[j].period /\ \A m \in 1..(i - 1) : C[m].period # C[j].period
Mirrored(C) == {j \in 1..Len(C) : Leader(C, j) # j /\ Opposite(C[Leader(C, j)].dir, C[j].dir)}
Kept(C) == SelectSeq([j \in 1..Len(C) |-> j], LAMBDA j : j \notin Mirrored(C))
=============================================================================

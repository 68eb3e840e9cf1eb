------------------------------- MODULE MCSplit -------------------------------
(* Design model: dealing the cells of a spectrum to the parts, cell by cell.   *)
(* The parts always add up to what has been dealt, nothing is dealt twice, and *)
(* the first k parts do not depend on how many parts are asked for.            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cells, Labels, Energies
VARIABLES label, energy, parts, dealt
Init == /\ label \in [1..Cells -> 0..Labels] /\ energy \in [1..Cells -> 0..Energies]
        /\ parts = [k \in 0..Labels |-> [c \in 1..Cells |-> 0]] /\ dealt = {}
Deal == /\ dealt # 1..Cells
        /\ LET c == CHOOSE x \in (1..Cells) \ dealt : \A y \in (1..Cells) \ dealt : x <= y
           IN parts' = [parts EXCEPT ![label[c]][c] = energy[c]] /\ dealt' = dealt \union {c}
        /\ UNCHANGED <<label, energy>>
Spec == Init /\ [][Deal]_<<label, energy, parts, dealt>>
RECURSIVE SumUp(_, _)
SumUp(c, k) == IF k < 0 THEN 0 ELSE parts[k][c] + SumUp(c, k - 1)
Conserved == \A c \in 1..Cells : SumUp(c, Labels) = IF c \in dealt THEN energy[c] ELSE 0
Once == \A c \in 1..Cells : Cardinality({k \in 0..Labels : parts[k][c] # 0}) <= 1
Own == \A c \in dealt, k \in 0..Labels : parts[k][c] = IF label[c] = k THEN energy[c] ELSE 0
=============================================================================

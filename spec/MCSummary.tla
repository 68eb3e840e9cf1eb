------------------------------ MODULE MCSummary ------------------------------
(* Summing up the partitions bin by bin in any order of directions, dropping   *)
(* the small ones, and ranking the rest: exchanges of neighbours until none is *)
(* out of order.                                                               *)
EXTENDS Summary
CONSTANTS Es, Parts, Small
F == <<10, 20, 30>>
NB == 6
VARIABLES e, lab, taken, sums, all, rank, pc
vars == <<e, lab, taken, sums, all, rank, pc>>
Init == /\ e \in [1..NB -> Es] /\ lab \in [1..NB -> 0..Parts]
        /\ taken = {} /\ sums = [p \in 1..Parts |-> [k \in 1..3 |-> 0]] /\ all = [k \in 1..3 |-> 0]
        /\ rank = <<>> /\ pc = "sum"
\* Directions are independent of one another: each frequency from either end
Take(c) == /\ pc = "sum" /\ c \notin taken /\ (Dir(F, c) = 1 \/ c - 3 \in taken \/ c + 3 \notin 1..NB)
           /\ \A m \in 1..NB : Bin(F, m) < Bin(F, c) => m \in taken
           /\ taken' = taken \union {c} /\ all' = [all EXCEPT ![Bin(F, c)] = @ + e[c]]
           /\ sums' = IF lab[c] = 0 THEN sums ELSE [sums EXCEPT ![lab[c]][Bin(F, c)] = @ + e[c]]
           /\ UNCHANGED <<e, lab, rank, pc>>
B == Bands(F)
H2(p) == Height2(F, B, sums[p])
PeakOf(p) == CHOOSE k \in PeakBins(sums[p]) : \A m \in PeakBins(sums[p]) : k <= m
\* Energy: height squared times period squared, in the units of a common multiple of the periods
Energy(p) == H2(p) * ((60 \div F[PeakOf(p)]) * (60 \div F[PeakOf(p)]))
List == /\ pc = "sum" /\ taken = 1..NB /\ pc' = "rank"
        /\ rank' = SelectSeq([p \in 1..Parts |-> p], LAMBDA p : H2(p) > Small)
        /\ UNCHANGED <<e, lab, taken, sums, all>>
Out(j) == Energy(rank[j]) < Energy(rank[j + 1])
Swap == /\ pc = "rank" /\ \E j \in 1..(Len(rank) - 1) : Out(j) /\ rank' = [rank EXCEPT ![j] = rank[j + 1], ![j + 1] = rank[j]]
        /\ UNCHANGED <<e, lab, taken, sums, all, pc>>
Done == pc = "rank" /\ (\A j \in 1..(Len(rank) - 1) : ~Out(j)) /\ pc' = "done" /\ UNCHANGED <<e, lab, taken, sums, all, rank>>
Next == (\E c \in 1..NB : Take(c)) \/ List \/ Swap \/ Done
Spec == Init /\ [][Next]_vars

\* The parts and what lies in none add up to the whole
Whole == LET zero == {c \in taken : lab[c] = 0} IN
         \A k \in 1..3 : all[k] = SumTo([p \in 1..Parts |-> sums[p][k]], Parts) + SumSet([c \in 1..NB |-> IF Bin(F, c) = k THEN e[c] ELSE 0], zero)
Own == taken = 1..NB => \A p \in 1..Parts : sums[p] = Rows(F, e, [c \in 1..NB |-> lab[c] = p])
Conserved == (pc = "done" /\ \A c \in 1..NB : lab[c] # 0) => Height2(F, B, all) = SumTo([p \in 1..Parts |-> H2(p)], Parts)
Ranked == pc = "done" => \A i, j \in 1..Len(rank) : i < j => Energy(rank[i]) >= Energy(rank[j]) /\ rank[i] # rank[j]
Complete == pc = "done" => \A p \in 1..Parts : (H2(p) > Small) <=> \E j \in 1..Len(rank) : rank[j] = p
=============================================================================

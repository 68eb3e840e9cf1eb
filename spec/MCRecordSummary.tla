--------------------------- MODULE MCRecordSummary ---------------------------
(* What becomes of a record's spectrum: any division of its bins into           *)
(* partitions, the summary of that, the components without mirrored ones. Two    *)
(* frequencies more than a whole period apart when printed, two directions.      *)
EXTENDS Summary, Filter
CONSTANTS Es, Parts, Small
F == <<10, 20, 30>>
D == <<0, 180>>
NB == 6
VARIABLES e, lab, C, kept, pc
vars == <<e, lab, C, kept, pc>>
Init == e \in [1..NB -> Es] /\ lab = <<>> /\ C = <<>> /\ kept = <<>> /\ pc = "spectrum"
Divide == /\ pc = "spectrum" /\ pc' = "divided" /\ lab' \in [1..NB -> 0..Parts] /\ UNCHANGED <<e, C, kept>>
B == Bands(F)
RowsOf(p) == Rows(F, e, [c \in 1..NB |-> lab[c] = p])
H2(p) == Height2(F, B, RowsOf(p))
PeakOf(p) == CHOOSE k \in PeakBins(RowsOf(p)) : \A m \in PeakBins(RowsOf(p)) : k <= m
Energy(p) == H2(p) * ((60 \div F[PeakOf(p)]) * (60 \div F[PeakOf(p)]))
Side(p, i) == SumSet([c \in 1..NB |-> e[c]], {c \in 1..NB : lab[c] = p /\ Dir(F, c) = i})
Comp(p) == [id |-> p, period |-> F[PeakOf(p)], dir |-> <<IF Side(p, 1) >= Side(p, 2) THEN D[1] ELSE D[2]>>, energy |-> Energy(p)]
RECURSIVE Ranked(_)
Ranked(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : \A q \in S : Energy(p) > Energy(q) \/ (Energy(p) = Energy(q) /\ p <= q)
                                     IN <<Comp(p)>> \o Ranked(S \ {p})
Summarise == /\ pc = "divided" /\ pc' = "summarised" /\ C' = Ranked({p \in 1..Parts : H2(p) > Small}) /\ UNCHANGED <<e, lab, kept>>
Mirrors == /\ pc = "summarised" /\ pc' = "done" /\ kept' = Kept(C) /\ UNCHANGED <<e, lab, C>>
Next == Divide \/ Summarise \/ Mirrors
Spec == Init /\ [][Next]_vars

\* The strongest component is never taken for a mirror, and no period is lost
Strongest == pc = "done" /\ Len(C) > 0 => Len(kept) > 0 /\ kept[1] = 1
Periods == pc = "done" => \A j \in 1..Len(C) : \E i \in 1..Len(kept) : C[kept[i]].period = C[j].period /\ C[kept[i]].energy >= C[j].energy
\* No more in the components than in the whole
Bounded == pc = "done" => SumTo([j \in 1..Len(C) |-> H2(C[j].id)], Len(C)) <= Height2(F, B, Rows(F, e, [c \in 1..NB |-> TRUE]))
Calm == pc = "done" /\ (\A c \in 1..NB : e[c] = 0) => C = <<>>
=============================================================================

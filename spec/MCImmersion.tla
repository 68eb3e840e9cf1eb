----------------------------- MODULE MCImmersion -----------------------------
(* Design model: every spectrum of W x H cells over `Tops` energies, flooded   *)
(* action by action: Mask a level, spread Ring by ring, open a NewBasin, Join  *)
(* the sheds. Each final state's spectrum is exported for replay.              *)
EXTENDS Immersion, TLC, Json, SequencesExt
CONSTANTS W, H, Tops, Share
VARIABLES data, lvl, lab, n, level, queue, pc
vars == <<data, lvl, lab, n, level, queue, pc>>

NB == Grid(W, H)
C == Cells(W, H)
Init == /\ data \in [C -> 0..(Tops - 1)]
        /\ (\E c \in C : data[c] = 0) = TRUE     \* levels are relative: one representative is enough
        /\ lvl = [c \in C |-> Tops - data[c]]
        /\ lab = [c \in C |-> INIT] /\ n = 0 /\ level = 0 /\ queue = {} /\ pc = "next"
Mask == /\ pc = "next" /\ level < Tops /\ level' = level + 1
        /\ LET m == Masked(lab, At(lvl, level')) IN
           lab' = m /\ queue' = Touching(m, NB, At(lvl, level'))
        /\ pc' = "flood" /\ UNCHANGED <<data, lvl, n>>
RingStep == /\ pc = "flood" /\ queue # {}
            /\ lab' = Ring(lab, NB, queue) /\ queue' = NextRing(lab', NB, queue, At(lvl, level))
            /\ UNCHANGED <<data, lvl, n, level, pc>>
NewBasin == /\ pc = "flood" /\ queue = {} /\ AnyMask(lab)
            /\ n' = n + 1 /\ lab' = [c \in C |-> IF c \in NewPiece(lab, NB) THEN n + 1 ELSE lab[c]]
            /\ UNCHANGED <<data, lvl, level, queue, pc>>
NextLevel == /\ pc = "flood" /\ queue = {} /\ ~AnyMask(lab) /\ pc' = "next" /\ UNCHANGED <<data, lvl, lab, n, level, queue>>
Join == /\ pc = "next" /\ level = Tops /\ Sheds(lab) # {}
        /\ \E pick \in [Sheds(lab) -> 1..n] :
             /\ \A c \in Sheds(lab) : Offers(lab, NB, data, c) = {} \/ pick[c] \in Offers(lab, NB, data, c)
             /\ lab' = JoinBy(lab, NB, data, pick)
        /\ UNCHANGED <<data, lvl, n, level, queue, pc>>
Done == pc = "next" /\ level = Tops /\ Sheds(lab) = {} /\ pc' = "done" /\ UNCHANGED <<data, lvl, lab, n, level, queue>>
Next == Mask \/ RingStep \/ NewBasin \/ NextLevel \/ Join \/ Done
Spec == Init /\ [][Next]_vars

\* Every cell is labelled once its level is through, every label in use, every basin in one piece
Flooded == pc = "next" => \A c \in C : (lab[c] = INIT) <=> lvl[c] > level
Basins == pc = "done" => Valid(lab, NB, n)
OnePerPeak == pc = "done" => n = Peaks(lvl, NB)
\* A basin never changes hands: only masked cells are labelled, and sheds joined
Keeps == [][\A c \in C : lab[c] > 0 => lab'[c] = lab[c]]_vars
\* Every peak lies in a basin of its own
AgreesWithFlood == pc = "done" => JoinsTo(Flood(NB, lvl).lab, NB, data, lab)
\* Joining can always go on while sheds are left
JoinsOn == (pc = "next" /\ level = Tops /\ Sheds(lab) # {}) => \E c \in Sheds(lab) : Offers(lab, NB, data, c) # {}
Code == LET RECURSIVE sum(_) sum(c) == IF c = W * H THEN 0 ELSE ((c + 3) * (c + 5) * data[c]) + sum(c + 1) IN sum(0)
Export == (pc = "next" /\ level = 0 /\ Code % Share = 0) => PrintT("SCEN " \o ToJson([w |-> W, h |-> H, data |-> [i \in 1..(W * H) |-> data[i - 1]]]))
=============================================================================

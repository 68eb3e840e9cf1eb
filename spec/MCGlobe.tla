------------------------------- MODULE MCGlobe -------------------------------
(* Design model: a traveller goes east from one side of a box to the other,    *)
(* in steps of the circle. The places it comes through are those the rule      *)
(* says are within, in whichever form the sides are written.                   *)
EXTENDS Globe, TLC, Json, FiniteSets
CONSTANT Full
VARIABLES west, east, at, been, done
vars == <<west, east, at, been, done>>
Forms == -(Full \div 2)..Full
Init == west \in Forms /\ east \in Forms /\ at = Whole(Full, west) /\ been = {Whole(Full, west)} /\ done = FALSE
Around == east - west >= Full
There == IF Around THEN Cardinality(been) = Full ELSE at = Whole(Full, east)
East == ~There /\ ~done /\ at' = Whole(Full, at + 1) /\ been' = been \cup {at'} /\ UNCHANGED <<west, east, done>>
Arrive == There /\ ~done /\ done' = TRUE /\ UNCHANGED <<west, east, at, been>>
          /\ PrintT("SCEN " \o ToJson([w |-> west, e |-> east, full |-> Full, within |-> Cardinality(been)]))
Spec == Init /\ [][East \/ Arrive]_vars /\ WF_vars(East \/ Arrive)
\* What it has passed is within, and once arrived, that is all
Passed == \A x \in been : Within(Full, west, east, x)
All == done => \A x \in Forms : Whole(Full, x) \in been <=> Within(Full, west, east, x)
\* ... which never depends on the form of the sides, spanning boxes apart
SameBox == ~Around => \A w2 \in Forms, e2 \in Forms :
             (Whole(Full, w2) = Whole(Full, west) /\ Whole(Full, e2) = Whole(Full, east) /\ e2 - w2 < Full)
             => \A x \in Forms : Within(Full, w2, e2, x) = Within(Full, west, east, x)
\* The rule as code has it: by cases of residues
Cases == done /\ ~Around => \A x \in 0..Full - 1 :
           LET w == Whole(Full, west) e == Whole(Full, east)
           IN (IF w <= e THEN w <= x /\ x <= e ELSE w <= x \/ x <= e) = (x \in been)
Arrives == <>done
=============================================================================

------------------------------ MODULE MCForecast ------------------------------
(* Design model: a forecaster issues periods, each with or without any of its  *)
(* values; a reader takes them one by one. What one period lacks, no other     *)
(* does.                                                                       *)
EXTENDS Forecast, TLC, TLCExt, Json
CONSTANTS Fields, Winds, Most, MostAbsent
VARIABLES doc, got, phase
vars == <<doc, got, phase>>
Init == doc = <<>> /\ got = <<>> /\ phase = "issue"
Absences == {A \in SUBSET Fields : Cardinality(A) <= (IF doc = <<>> THEN MostAbsent ELSE 1)}
Issue == /\ phase = "issue" /\ Len(doc) < Most
         /\ \E A \in Absences, w \in Winds : doc' = Append(doc, [absent |-> A, wind |-> w])
         /\ UNCHANGED <<got, phase>>
Publish == phase = "issue" /\ phase' = "read" /\ UNCHANGED <<doc, got>> /\ PrintT("SCEN " \o ToJson([doc |-> doc]))
Read == /\ phase = "read" /\ Len(got) < Len(doc)
        /\ LET p == doc[Len(got) + 1] IN
             got' = Append(got, [present |-> Fields \ p.absent, speed |-> p.wind \in {"single", "range", "bare"}])
        /\ UNCHANGED <<doc, phase>>
Next == Issue \/ Publish \/ Read
Spec == Init /\ [][Next]_vars
Own == \A j \in 1..Len(got) : \A f \in Fields : f \in got[j].present <=> f \notin doc[j].absent
AllOfThem == phase = "read" /\ ~ENABLED Read => Len(got) = Len(doc)
=============================================================================

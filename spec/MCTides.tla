------------------------------- MODULE MCTides -------------------------------
(* Design model: a list of predictions is written item by item, some of them   *)
(* damaged, then taken in. And stations are listed, then asked for.            *)
EXTENDS Tides, TLCExt, Json
CONSTANTS Damages, Most, Ids
VARIABLES doc, ids, at, got, phase
vars == <<doc, ids, at, got, phase>>
Init == doc = <<>> /\ ids = <<>> /\ at = 0 /\ got = <<>> /\ phase = "write"
Write == /\ phase = "write" /\ ids = <<>> /\ Len(doc) < Most
         /\ \E d \in Damages : doc' = Append(doc, [damage |-> d]) /\ UNCHANGED <<ids, at, got, phase>>
List == /\ phase = "write" /\ doc = <<>> /\ Len(ids) < Most
        /\ \E i \in Ids : ids' = Append(ids, i) /\ UNCHANGED <<doc, at, got, phase>>
Close == phase = "write" /\ phase' = "read" /\ at' = 1 /\ UNCHANGED <<doc, ids, got>>
         /\ PrintT("SCEN " \o ToJson([doc |-> doc, ids |-> ids]))
Take == phase = "read" /\ at <= Len(doc) /\ Good(doc[at]) /\ got' = Append(got, at) /\ at' = at + 1 /\ UNCHANGED <<doc, ids, phase>>
\* One that cannot be read fails the list
Refuse == phase = "read" /\ at <= Len(doc) /\ ~Good(doc[at]) /\ phase' = "error" /\ got' = <<>> /\ UNCHANGED <<doc, ids, at>>
Finish == phase = "read" /\ at > Len(doc) /\ phase' = "done" /\ UNCHANGED <<doc, ids, at, got>>
Next == Write \/ List \/ Close \/ Take \/ Refuse \/ Finish
Spec == Init /\ [][Next]_vars
AllOrError == /\ (phase = "done" => Intact(doc) /\ got = [j \in 1..Len(doc) |-> j])
              /\ (phase = "error" => ~Intact(doc))
Found == \A i \in Ids : LET k == Listed(ids, i) IN
            IF k = 0 THEN \A j \in 1..Len(ids) : ids[j] # i ELSE ids[k] = i
=============================================================================

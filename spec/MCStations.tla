----------------------------- MODULE MCStations -----------------------------
(* Design model: a station is listed (its name grows token by token, its flags *)
(* are set or left out), then its name is read off the list part by part, and  *)
(* joined. What was listed is exported for the driver to spell.                *)
EXTENDS Stations, TLC, Json
CONSTANTS Most, Open
VARIABLES ts, flags, state, at, part, words
vars == <<ts, flags, state, at, part, words>>
Kinds == {"w", "n", "b", "-"}
T(k, i) == [k |-> k, s |-> k \o ToString(i)]
Init == ts = <<>> /\ flags \in [1..4 -> Open] /\ state = "listing" /\ at = 1 /\ part = <<>> /\ words = <<>>
List == /\ state = "listing" /\ Len(ts) < Most /\ \E k \in Kinds : ts' = Append(ts, T(k, Len(ts)))
        /\ UNCHANGED <<flags, state, at, part, words>>
Start == /\ state = "listing" /\ ts # <<>> /\ state' = "reading" /\ PrintT("SCEN " \o ToJson([name |-> [j \in 1..Len(ts) |-> ts[j].k], flags |-> flags]))
         /\ UNCHANGED <<ts, flags, at, part, words>>
Keep(p) == IF Len(p) = 1 /\ p[1].k = "n" THEN <<>> ELSE SelectSeq(p, LAMBDA t : t.k # "b")
Read == /\ state = "reading" /\ at <= Len(ts) /\ at' = at + 1
        /\ IF ts[at].k = "-" THEN words' = words \o Keep(part) /\ part' = <<>> ELSE part' = Append(part, ts[at]) /\ UNCHANGED words
        /\ UNCHANGED <<ts, flags, state>>
End == /\ state = "reading" /\ at > Len(ts) /\ state' = "named" /\ words' = words \o Keep(part)
       /\ UNCHANGED <<ts, flags, at, part>>
Next == List \/ Start \/ Read \/ End
Spec == Init /\ [][Next]_vars
Agrees == state = "named" => words = Words(ts)
\* Every plain word is in the name, in order, and nothing is run together
Kept == state = "named" => SelectSeq(words, LAMBDA t : t.k = "w") = SelectSeq(ts, LAMBDA t : t.k = "w")
Bare == state = "named" => \A j \in 1..Len(words) : words[j].k \in {"w", "n"}
\* Numbers stay where they are part of a text
Numbers == state = "named" => \A j \in 1..Len(ts) : ts[j].k = "n" /\ (j > 1 /\ ts[j - 1].k = "w") => \E i \in 1..Len(words) : words[i] = ts[j]
Sound == Active(flags) <=> "y" \in {flags[j] : j \in 1..4}
=============================================================================

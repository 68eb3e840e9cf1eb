----------------------------- MODULE MCGridRecord -----------------------------
(* Design model: the messages of a time are taken in whatever order they come, *)
(* each kept as the mean of what it has around the place if it has anything    *)
(* there; then the record is put together. Which messages have what is         *)
(* exported. Some are well, the others blank around the place, without a date, *)
(* without data or not there at all; a direction may lie across north.         *)
EXTENDS GridRecord, TLC, Json
CONSTANTS Keys, Odd, Turn
VARIABLES state, left, data, rec
vars == <<state, left, data, rec>>
States == {"well", "blank", "undated", "empty", "gone"}
RECURSIVE Few(_, _)
Few(ks, n) == IF n = 0 \/ ks = {} THEN {[k \in ks |-> "well"]}
              ELSE Few(ks, n - 1) \union UNION {{[f EXCEPT ![k] = st] : f \in Few(ks, n - 1), st \in States} : k \in ks}
IsDir(k) == k \in {"DIRPW", "WDIR", "WVDIR", "SWDIR_1", "SWDIR_2"}
Vals(k, st) == IF st = "blank" THEN <<None, None>> ELSE IF IsDir(k) THEN <<Turn - 1, 3>> ELSE <<5, 7>>
Msg(k) == [key |-> k, dated |-> state[k] # "undated", data |-> state[k] # "empty", lat0 |-> 0, dlat |-> 1, n |-> 1, lng0 |-> 0, dlng |-> 1, m |-> 2, vals |-> Vals(k, state[k])]
Init == /\ state \in Few(Keys, Odd) /\ left = {k \in Keys : state[k] # "gone"} /\ data = {} /\ rec = "none"
\* data: of <<key, values>>
Take == \E k \in left : /\ left' = left \ {k}
                        /\ data' = IF Seen(Msg(k), 0, 0, 1) = <<>> THEN data ELSE data \union {<<k, Seen(Msg(k), 0, 0, 1)>>}
                        /\ UNCHANGED <<state, rec>>
Has(k) == \E d \in data : d[1] = k
Make == /\ left = {} /\ rec = "none"
        /\ rec' = IF \A j \in 1..3 : Has(Needed[j]) THEN "made" ELSE "refused"
        /\ PrintT("SCEN " \o ToJson([state |-> state]))
        /\ UNCHANGED <<state, left, data>>
Next == Take \/ Make
Spec == Init /\ [][Next]_vars
Taken == {k \in Keys : Has(k)}
\* The messages, one way around and the other
RECURSIVE List(_, _)
List(ks, back) == IF ks = {} THEN <<>> ELSE LET k == CHOOSE x \in ks : TRUE IN IF back THEN List(ks \ {k}, back) \o <<Msg(k)>> ELSE <<Msg(k)>> \o List(ks \ {k}, back)
Sent == {k \in Keys : state[k] # "gone"}
\* The record depends on what the messages have, not on the order they come in
Same == rec # "none" => /\ Taken = {k \in Keys : state[k] = "well"}
                        /\ rec = "made" <=> \A j \in 1..3 : state[Needed[j]] = "well"
                        /\ \A k \in Keys, back \in BOOLEAN : Latest(List(Sent, back), k, 0, 0, 1) = IF state[k] = "well" THEN Vals(k, "well") ELSE <<>>
\* A mean lies among what it is the mean of, a heading between the headings
Heading == (Turn - 1 + 4 \div 2) % Turn
Among == /\ IsMean(6, <<5, 7>>) /\ ~IsMean(8, <<5, 7>>)
         /\ IsHeading(Heading, <<Turn - 1, 3>>, Turn, 0) /\ IsHeading(Heading, <<3, Turn - 1>>, Turn, 0)
         /\ ~IsHeading((Turn + 2) \div 2, <<Turn - 1, 3>>, Turn, 1)
===============================================================================

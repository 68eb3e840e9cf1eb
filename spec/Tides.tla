-------------------------------- MODULE Tides --------------------------------
(* Prediction lists, station lists and prediction addresses.                   *)
EXTENDS Calendar, FiniteSets, TLC
Good(p) == p.damage = ""
Intact(doc) == \A j \in 1..Len(doc) : Good(doc[j])
\* The first station listed with the id, or 0
Listed(ids, id) == LET S == {j \in 1..Len(ids) : ids[j] = id} IN
                   IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k
Digit(n, places) == IF n < 10 /\ places = 2 THEN "0" \o ToString(n) ELSE ToString(n)
Day8(t) == ToString(t[1]) \o Digit(t[2], 2) \o Digit(t[3], 2)
Clock(t) == Digit(t[4], 2) \o ":" \o Digit(t[5], 2)
Moment(t) == Day8(t) \o " " \o Clock(t)
Datums == {"MHHW", "MHW", "MTL", "MSL", "MLW", "MLLW"}
Interval(i) == CASE i = "Default" -> "" [] i = "Hourly" -> "h" [] i = "HiLo" -> "hilo"
UnitsName(u) == CASE u = "Metric" -> "metric" [] u = "English" -> "english"
=============================================================================

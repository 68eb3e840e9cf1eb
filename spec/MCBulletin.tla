------------------------------ MODULE MCBulletin ------------------------------
(* Design model: from each run date the days pass one by one through the real  *)
(* calendar; the rule for row dates names each of them for up to four weeks,   *)
(* always the first date with that day number.                                 *)
EXTENDS Bulletin, TLC, TLCExt, Json
CONSTANTS Years, Ahead
VARIABLES run, date, n
Init == /\ \E y \in Years, m \in 1..12, d \in 1..31 : IsDate(y, m, d) /\ run = <<y, m, d>>
        /\ date = run /\ n = 0
        /\ PrintT("SCEN " \o ToJson([run |-> run]))
Pass == n < Ahead /\ date' = NextDay(date) /\ n' = n + 1 /\ UNCHANGED run
Spec == Init /\ [][Pass]_<<run, date, n>>
Named == Possible(run, date[3]) /\ FirstOn(run, date[3]) = date
Counts == Day(date) = Day(run) + n
=============================================================================

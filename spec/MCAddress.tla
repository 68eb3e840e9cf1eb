------------------------------ MODULE MCAddress ------------------------------
(* Design model: two requests made one after the other; different data is      *)
(* never at the same address.                                                  *)
EXTENDS Address
CONSTANTS Ids, Days, Clock, Outputs
VARIABLES first, second
Times == {<<d[1], d[2], d[3], h, 0, 0, 0>> : d \in Days, h \in Clock}
Sources_ == {"aws", "nomads", "gcp"}
Requests ==
  {<<"buoy", w, id>> : w \in (DOMAIN Live) \union {"latest"}, id \in Ids}
  \union {<<"archive", w, id>> : w \in DOMAIN Archive, id \in Ids}
  \union {<<"forecast", w, id, s, t>> : w \in {"bulletin", "spectral"}, id \in Ids, s \in Sources_, t \in {x \in Times : x[4] % 6 = 0}}
  \union {<<"grid", m, s, o, RunAt(t)>> : m \in (DOMAIN GfsIds) , s \in Sources_, o \in Outputs, t \in Times}
  \union {<<"grid", m, s, o, RunAt(t)>> : m \in (DOMAIN GefsIds) , s \in {"aws", "nomads"}, o \in Outputs, t \in Times}
  \union {<<"grid", "boston", "nomads", 0, RunAt(t)>> : t \in Times}
At(r) == CASE r[1] = "buoy" -> Buoy(r[2], r[3]) [] r[1] = "archive" -> Archived(r[2], r[3])
           [] r[1] = "forecast" -> Forecast(r[2], r[3], r[4], r[5])
           [] r[1] = "grid" -> Grid(r[2], r[3], r[4], r[5])
D == {<<2023, 1, 1>>, <<2024, 2, 29>>, <<2024, 12, 31>>}
None == <<>>
Init == first \in Requests /\ second = None
Ask == second = None /\ \E r \in Requests : r[1] = first[1] /\ second' = r /\ UNCHANGED first
Next == Ask
Spec == Init /\ [][Next]_<<first, second>>
Distinct == second # None /\ first # second => At(first) # At(second)
\* Families of addresses keep apart: none of one kind is of another
Apart == first[1] = "buoy" => \A id \in Ids, w \in DOMAIN Archive : At(first) # Archived(w, id)
\* The run is the one the clock of C01 chooses
Newest == \A t \in Times : Latest(RunAt(t), t, "gridded")
=============================================================================

------------------------------ MODULE TraceR02 ------------------------------
(* A session is one row of distinct values and missing markers.               *)
EXTENDS Table, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
OK(e, t) ==
  CASE e.op = "row" -> Len(e.got) = 1 /\ RowFits(t.kind, t.row, e.got[1])
    [] e.op = "read" -> Len(e.got) = 1 /\ RowFits(t.kind, t.row, e.got[1])
    \* The sea as the record sums it up: the whole, the swell, the wind waves
    [] e.op = "swell" ->
         /\ Len(e.parts) = 3
         /\ LET r == t.row
                fits(w, h, p, d) == w.h = OptNum(r[h]) /\ w.p = OptNum(r[p]) /\ DirFits(r[d], w.d) /\ w.units = "Meters Seconds Degrees"
            IN fits(e.parts[1], 6, 14, 15) /\ fits(e.parts[2], 7, 8, 11) /\ fits(e.parts[3], 9, 10, 12)
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

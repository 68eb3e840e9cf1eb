------------------------------ MODULE TraceU02 ------------------------------
EXTENDS RecordTrace
VARIABLES s, l, q, bad
Ses == Sessions[s]
Ev == Ses.events[l]
OK(e) == CASE e.op = "to" -> To(q, Ses.init.rest, e) /\ Restored(Ses.init.quantities, e.quantities)
           [] OTHER -> FALSE

Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = TRUE /\ l' = l + 1 /\ q' = Ev.quantities /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l, q>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE /\ q = Sessions[s].init.quantities
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, q, bad>>
=============================================================================

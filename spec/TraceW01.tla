------------------------------ MODULE TraceW01 ------------------------------
EXTENDS Immersion, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
OK(e) ==
  CASE e.op = "partition" ->
         /\ Len(e.labels) = e.w * e.h
         /\ \A lab \in {TLCEval([c \in Cells(e.w, e.h) |-> e.labels[c + 1]])}, nb \in {Grid(e.w, e.h)} :
               Valid(lab, nb, e.count - 1)
    [] e.op = "refused" -> TRUE
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

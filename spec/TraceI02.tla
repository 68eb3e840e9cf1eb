------------------------------ MODULE TraceI02 ------------------------------
EXTENDS Interp, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
OK(e, t) ==
  CASE e.op = "at" -> Finite(e.v) /\ FitsC(t.ds, t.ys, e.d, e.v, t.turn)
    \* the same direction named as 0 and as a whole turn
    [] e.op = "seam" -> Near(e.v, e.w, 1) /\ FitsC(t.ds, t.ys, 0, e.v, t.turn)
    \* the table and the questions rotated together
    [] e.op = "rotated" -> NearSeq(e.base, e.got, 2)
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

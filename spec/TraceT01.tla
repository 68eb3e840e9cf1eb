------------------------------ MODULE TraceT01 ------------------------------
(* A session is one series: the first event its first step.                   *)
EXTENDS Tracking, TraceKit
VARIABLES prev, used, s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
Given(e) == [k \in 1..Len(e.cur) |-> [id |-> e.ids[k], dir |-> e.cur[k].dir, per |-> e.cur[k].per]]
OK(e) ==
  CASE e.op = "first" -> e.same /\ e.ids = e.own
    [] e.op = "step" -> /\ e.same /\ Len(e.ids) = Len(e.cur)
                        /\ IF e.scored THEN StepOK(prev, used, e.cur, e.ids, e.max, e.w)
                           ELSE LooseOK(prev, used, e.cur, e.ids, e.max)
    [] e.op = "empty" -> e.steps = 0
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = TRUE /\ l' = l + 1
        /\ prev' = (IF Ev.op = "empty" THEN prev ELSE Given(Ev))
        /\ used' = (IF Ev.op = "empty" THEN used ELSE used \union {Ev.ids[k] : k \in 1..Len(Ev.ids)})
        /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<prev, used, s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE /\ prev = <<>> /\ used = {}
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<prev, used, s, l, bad>>
=============================================================================

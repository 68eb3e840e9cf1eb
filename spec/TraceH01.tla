------------------------------ MODULE TraceH01 ------------------------------
(* A session is one partitioned spectrum and its summaries.                   *)
EXTENDS Summaries
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
OK(e, t) ==
  CASE e.op = "summary" -> SummaryFits(t, e)
    \* other bins changed, this partition's component did not
    [] e.op = "alone" -> e.before = e.after
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

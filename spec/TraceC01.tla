------------------------------ MODULE TraceC01 ------------------------------
EXTENDS ModelClock, TraceKit
VARIABLES last, s, l, bad   \* last: <<instant, runs chosen at it>>, or <<>>
Ses == Sessions[s]
Ev == Ses.events[l]

Chosen(e) == /\ \A src \in Sources : Latest(e.got[src], e.t, src)
             /\ Floor(e.got.floor, e.t, e.mult)
\* As time goes on no source goes back to an older run
Onward(e) == last # <<>> /\ NotBefore(e.t, last[1])
             => \A src \in Sources : Hours(e.got[src]) >= Hours(last[2][src])
Tick == Ev.op = "tick" /\ Chosen(Ev) /\ Onward(Ev) /\ last' = <<Ev.t, Ev.got>>
Look == Ev.op = "window" /\ Window(Ev.runs, Ev.t, Ev.end) /\ UNCHANGED last
Step == /\ ~bad /\ l <= Len(Ses.events) /\ l' = l + 1 /\ UNCHANGED <<s, bad>> /\ (Tick \/ Look)
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ ~ENABLED Step /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<last, s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE /\ last = <<>>
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<last, s, l, bad>>
=============================================================================

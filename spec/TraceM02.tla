------------------------------ MODULE TraceM02 ------------------------------
EXTENDS Archive, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
\* Binary fractions come within a thousandth
Same(xs, ys) == NearSeq(xs, ys, 1)
Values(t, i, g) == \A j \in 1..13 : \A w \in {Opt(j, t.vars[j][i])} : Len(g.values[j]) = Len(w) /\ (Len(w) = 1 => Near(g.values[j][1], w[1], 1))
OK(e, t) ==
  CASE e.op = "standard" ->
         /\ Len(e.records) = Len(t.times)
         /\ \A i \in 1..Len(t.times) : \A g \in {e.records[i]} :
              /\ g.date = t.times[i] /\ Len(g.values) = 13 /\ Values(t, i, g)
              /\ g.units = [j \in 1..13 |-> Standard[j][3]]
              /\ g.tendency = <<>>
    [] e.op = "spectral" ->
         /\ Len(e.records) = Len(t.times)
         /\ \A i \in 1..Len(t.times) : \A g \in {e.records[i]} :
              /\ g.date = t.times[i] /\ Same(g.freq, t.freq)
              /\ Len(g.values) = 5 /\ \A j \in 1..5 : Same(g.values[j], Row(t.vars[j], Len(t.freq), i))
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

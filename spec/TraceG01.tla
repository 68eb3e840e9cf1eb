------------------------------ MODULE TraceG01 ------------------------------
EXTENDS Regrid, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
Fine == 10000
OK(e, t) ==
  CASE e.op = "grid" ->
         LET g == e.got  nk == Len(e.tf) IN
         /\ g.f = e.tf /\ g.d = e.td /\ g.from
         /\ Len(g.e) = nk * Len(e.td)
         /\ \A i \in 1..nk, j \in 1..Len(e.td) :
              LET v == g.e[i + (j - 1) * nk] IN
              Finite(v) /\ v >= 0 /\ CellFits(t.f, t.ds, t.e, e.tf[i], e.td[j], 3600, v, Fine, 1)
    [] e.op = "again" -> NearSeq(e.base, e.got, 2)
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

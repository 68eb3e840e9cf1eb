------------------------------ MODULE TraceR01 ------------------------------
EXTENDS Table, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
OK(e, t) ==
  CASE e.op = "read" ->
         \A g \in {Good(t.kind, t.lines)} :
           /\ Len(e.records) = Len(g)
           /\ \A j \in 1..Len(g) : RowFits(t.kind, t.lines[g[j]].toks, e.records[j])
    \* one row alone: a record, or an error if it is malformed
    [] e.op = "row" -> IF RowOK(t.kind, t.lines[e.line].toks)
                       THEN Len(e.got) = 1 /\ RowFits(t.kind, t.lines[e.line].toks, e.got[1])
                       ELSE e.got = <<>>
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

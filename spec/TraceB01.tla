------------------------------ MODULE TraceB01 ------------------------------
EXTENDS Bulletin, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
Sure(run, r) == RowOK(run, r) /\ Height(r)
\* The rows that made records: every sure one, maybe those of unreadable height, in order
Explains(run, rows, got) ==
  LET good == SelectSeq(rows, LAMBDA r : RowOK(run, r)) IN
  LET sure == SelectSeq(rows, LAMBDA r : Sure(run, r)) IN
  LET fit(rs) == Len(rs) = Len(got) /\ \A j \in 1..Len(rs) : RowFits(run, rs[j], got[j], TRUE) IN
  IF Len(got) = Len(good) THEN fit(good) ELSE fit(sure)
OK(e, t) ==
  CASE e.op = "read" -> IF HeaderOK(t.header)
                        THEN Len(e.got) = 1 /\ HeaderFits(t.header, e.got[1].header) /\ Explains(t.header.run, t.rows, e.got[1].records)
                        ELSE e.got = <<>>
    \* a row by itself keeps the file's units
    [] e.op = "row" -> LET r == t.rows[e.row] IN
         IF RowOK(t.header.run, r)
         THEN (Len(e.got) = 1 /\ RowFits(t.header.run, r, e.got[1], FALSE)) \/ (~Height(r) /\ e.got = <<>>)
         ELSE e.got = <<>>
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

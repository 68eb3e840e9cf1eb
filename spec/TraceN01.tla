------------------------------ MODULE TraceN01 ------------------------------
EXTENDS Forecast, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
Field(g, f, tol) == /\ IF f.k = "value" THEN Len(g.v) = 1 /\ Near(g.v[1], f.v, tol) ELSE g.v = <<>>
                    /\ (f.k # "none" => g.u = UnitOf(f.u))
Fits(g, p) ==
  /\ Minute(g.start, 0) = Minute(p.start, p.offset) /\ g.seconds = 0
  /\ Minute(g.end, 0) = Minute(p.end, p.offset)
  /\ g.day = p.day
  /\ Field(g.temperature, p.temperature, 0) /\ Field(g.dewpoint, p.dewpoint, 0) /\ Field(g.humidity, p.humidity, 0)
  /\ g.wind.v = Speed(p.wind) /\ (p.wind.k \in {"single", "range", "bare"} => g.wind.u = SpeedUnit(p.wind))
  /\ g.direction = (IF p.direction = <<>> THEN <<>> ELSE <<Compass16[p.direction[1]]>>) /\ g.degrees
  /\ g.texts = p.texts
Read(e, t) == IF t.whole
              THEN Len(e.got) = 1 /\ Len(e.got[1]) = Len(t.doc) /\ \A j \in 1..Len(t.doc) : Fits(e.got[1][j], t.doc[j])
              ELSE e.got = <<>>
OK(e, t) == CASE e.op = "read" -> Read(e, t) [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

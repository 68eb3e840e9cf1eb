------------------------------ MODULE TraceJ03 ------------------------------
(* A session is the messages of one time at one place; values in 1/1000, of   *)
(* degrees for directions, positions in 1/768 degree.                         *)
EXTENDS Integers, Sequences, TraceKit, Units
R == INSTANCE GridRecord WITH Full <- 276480, None <- NaN
VARIABLES s, l, p, bad
Ses == Sessions[s]
Ev == Ses.events[l]
Circle == 360000
Key(m) == IF m.abbrev = <<>> \/ m.surface = "none" THEN ""
          ELSE IF m.surface = "ordered" THEN m.abbrev[1] \o "_" \o ToString(IF m.level = <<>> THEN 0 ELSE m.level[1])
          ELSE m.abbrev[1]
Msgs(t) == TLCEval([k \in 1..Len(t.msgs) |-> [key |-> Key(t.msgs[k]), dated |-> t.msgs[k].dated, data |-> t.msgs[k].data, vals |-> t.msgs[k].vals,
              lat0 |-> t.grid.lat0, dlat |-> t.grid.dlat, n |-> t.grid.n, lng0 |-> t.grid.lng0, dlng |-> t.grid.dlng, m |-> t.grid.m]])
Field(ms, t, key) == R!Latest(ms, key, t.lat, t.lng, t.tol)

Energetic(c) == c.ratio = <<1970080>> \/ (Len(c.ratio) = 1 /\ Near(c.ratio[1], 1970080, 8000))
Heading(d, xs) == Len(d) = 1 /\ d[1] \in 0..359 /\ R!IsHeading(1000 * d[1], xs, Circle, 1000)
Mean(x, xs) == Len(x) = 1 /\ Finite(x[1]) /\ R!IsMean(x[1], xs)
Wave(c, h, pd, d) == Mean(c.h, h) /\ Mean(c.p, pd) /\ Heading(c.d, d) /\ Energetic(c) /\ c.units = "Meters Seconds Degrees"
Record(ms, t, g) ==
  /\ g.date = t.valid
  /\ Wave(g.summary, Field(ms, t, "HTSGW"), Field(ms, t, "PERPW"), Field(ms, t, "DIRPW"))
  /\ \A w \in {Field(ms, t, "WIND")} : IF w = <<>> THEN g.speed = <<>> ELSE Mean(g.speed, w)
  /\ \A w \in {Field(ms, t, "WDIR")} : IF w = <<>> THEN g.from = <<>> ELSE Heading(g.from, w)
  /\ g.units = "MetersPerSecond Degrees"
  /\ \A whole \in {{j \in 1..5 : \A k \in 1..3 : Field(ms, t, R!Parts[j][k]) # <<>>}} :
       /\ Len(g.parts) = Cardinality(whole)
       /\ \A j \in whole : \E i \in 1..Len(g.parts) : Wave(g.parts[i], Field(ms, t, R!Parts[j][1]), Field(ms, t, R!Parts[j][2]), Field(ms, t, R!Parts[j][3]))
       /\ \A i \in 1..Len(g.parts) : \E j \in whole : Wave(g.parts[i], Field(ms, t, R!Parts[j][1]), Field(ms, t, R!Parts[j][2]), Field(ms, t, R!Parts[j][3]))
  \* the highest first
  /\ \A i \in 1..(Len(g.parts) - 1) : g.parts[i].h[1] >= g.parts[i + 1].h[1]

\* Heights and speed turn into other units, everything else stays
Turned(a, b, from, to) == Len(a) = Len(b) /\ (Len(a) = 1 => IF from = to THEN Near(b[1], a[1], 1) ELSE Converts(from, to, a[1], b[1], 1000))
WaveTo(a, b, from, to) == /\ Turned(a.h, b.h, from, to) /\ b.p = a.p /\ b.d = a.d /\ b.energy = a.energy
                          /\ b.units = to \o " Seconds Degrees"
To(a, b, sys) ==
  LET height == SystemUnit(a.height, sys) wind == SystemUnit(a.wind, sys) IN
  /\ b.height = height /\ b.wind = wind /\ b.units = wind \o " Degrees"
  /\ b.date = a.date /\ b.from = a.from /\ Turned(a.speed, b.speed, a.wind, wind)
  /\ WaveTo(a.summary, b.summary, a.height, height)
  /\ Len(b.parts) = Len(a.parts) /\ \A i \in 1..Len(a.parts) : WaveTo(a.parts[i], b.parts[i], a.height, height)
Alike(a, b) == Turned(a.h, b.h, "", "") /\ Turned(a.p, b.p, "", "") /\ a.d = b.d /\ a.units = b.units /\ Turned(a.energy, b.energy, "", "")
Again(a, b) == /\ b.date = a.date /\ b.from = a.from /\ Turned(a.speed, b.speed, "", "") /\ b.units = a.units /\ Alike(a.summary, b.summary)
               /\ Len(b.parts) = Len(a.parts) /\ \A i \in 1..Len(a.parts) : Alike(a.parts[i], b.parts[i])
OK(e, t) ==
  CASE e.op = "record" -> \A ms \in {Msgs(t)} :
         IF \A j \in 1..3 : Field(ms, t, R!Needed[j]) # <<>> THEN Len(e.got) = 1 /\ Record(ms, t, e.got[1]) ELSE e.got = <<>>
    [] e.op = "to" -> To(p[1], e.got[1], e.sys)
    [] e.op = "again" -> Len(e.got) = 1 /\ Again(p[1], e.got[1])
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ p' = (IF Ev.op = "again" THEN p ELSE Ev.got) /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l, p>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE /\ p = <<>>
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, p, bad>>
=============================================================================

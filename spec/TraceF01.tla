------------------------------ MODULE TraceF01 ------------------------------
(* A session is a file, perhaps damaged, read whole and cut at many places.    *)
EXTENDS PointFile, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
\* Radians in 1/1000 from east, turned to a bearing in 1/10 degrees
Bearing(r) == (4500 - ((r * 573) \div 1000)) % 3600
Around(a, b, full) == LET d == (a - b) % full IN IF d > full \div 2 THEN full - d ELSE d
Degrees(x) == (x + 5) \div 10
Fits(t, lines, i, b, g) ==
  LET count == t.nf * t.nd
      end == EndOf(lines, i, count)
      vals == Values(lines, i + 2, end)
      n == IF Cut(lines, i, count) THEN count - 1 ELSE count
      p == lines[i + 1].v
  IN /\ g.date = lines[i].v /\ g.ref = Reference(lines, b)
     /\ g.lat = p[1] /\ g.lon = p[2] /\ g.depth = <<p[3]>> /\ g.ws = <<p[4]>> /\ g.wd = <<Degrees(p[5])>>
     /\ g.cs = <<p[6]>> /\ g.cd = <<Degrees(p[7])>>
     /\ g.units = "Meters MetersPerSecond Degrees MetersPerSecond Degrees Met"
     /\ Len(g.e) = count /\ \A j \in 1..n : g.e[j] = vals[j]
     /\ g.axes
Read(e, t) ==
  \A lines \in {SubSeq(t.lines, 1, e.upto) \o e.partial} :
  \A a \in {IF e.first /\ t.header THEN After(lines, 1, t.nf) ELSE 0} :
  \A b \in {IF a = 0 THEN 0 ELSE After(lines, a, t.nd)} :
  IF b = 0 THEN e.got = <<>>
  ELSE IF e.got = <<>> THEN lines[b - 1].tail
  ELSE LET g == e.got[1] IN
       /\ g.np = t.np /\ g.ended
       /\ g.freq = Values(lines, 1, a)
       /\ \A dirs \in {Values(lines, a, b)} :
            Len(g.dirs) = t.nd /\ \A j \in 1..t.nd : lines[b - 1].tail \/ Around(10 * g.dirs[j], Bearing(dirs[j]), 3600) <= 15
       /\ \A S \in {Starts(lines, b, t.nf * t.nd)} :
            LET n == Len(S)
                cut == n > 0 /\ Cut(lines, S[n], t.nf * t.nd)
            IN /\ Len(g.records) = n \/ (cut /\ Len(g.records) = n - 1)
               /\ \A j \in 1..Len(g.records) : Fits(t, lines, S[j], b, g.records[j])
               /\ g.items = Len(g.records)
OK(e, t) == CASE e.op = "read" -> Read(e, t)
              [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

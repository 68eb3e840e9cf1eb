------------------------------ MODULE TraceD01 ------------------------------
EXTENDS Compass, TraceKit
VARIABLES deg, s, l, bad      \* deg: the heading being turned in place
Ses == Sessions[s]
Ev == Ses.events[l]

Is(d, g) == d.deg = g /\ d.name = PointOf(g)
Normal(e) == LET q == e.q g == e.got IN
   /\ g[1] = q
   /\ \A k \in 1..3 : g[k] >= 0 /\ g[k] <= 360000
   /\ \E t \in -1..1 : SameBearing(g[2] + t, FromTowards(q, 360000), 360000)
   /\ \E t \in -1..1 : SameBearing(g[3] + t, FromMet(q, 360000), 360000)
Pure(e) == e.ok /\
  CASE e.op = "named" -> Is(e.got, e.deg)
    [] e.op = "invert" -> Is(e.got, Turn(e.deg))
    [] e.op = "normalize" -> Normal(e)
    [] e.op = "opposites" -> LET S == {o \in 0..360 : Opposite(e.deg, o)} IN
                             /\ {e.got.one[i] : i \in 1..Len(e.got.one)} = S
                             /\ {e.got.other[i] : i \in 1..Len(e.got.other)} = S
    [] e.op = "parsenumber" -> e.got.name = <<>> /\ Len(e.got.dir) = 1 /\ Is(e.got.dir[1], e.deg)
    [] e.op = "parsename" -> /\ e.got.name = <<Points[e.k + 1]>>
                             /\ Len(e.got.dir) = 1
                             /\ e.got.dir[1].name = Points[e.k + 1] /\ PointOf(e.got.dir[1].deg) = Points[e.k + 1]
    [] e.op = "fromname" -> /\ e.got.dir.name = Points[e.k + 1] /\ e.got.dir.deg = e.got.deg
                            \* the middle of the sector, within two degrees where that is no whole number
                            /\ LET x == 4 * e.got.deg - 90 * e.k IN IF e.k % 2 = 0 THEN x = 0 ELSE x <= 8 /\ x >= -8
    [] e.op = "radians" -> /\ Near(e.got.milli, e.deg * 1000, 1)
                           /\ e.got.back.deg \in {e.deg, e.deg + 1}
                           /\ e.got.back.deg <= 360 => e.got.back.name = PointOf(e.got.back.deg)
    [] e.op = "junk" -> e.got.name = <<>> /\ e.got.dir = <<>>
    [] OTHER -> FALSE

Hold == Ev.op = "hold" /\ Ev.ok /\ Is(Ev.got, Ev.deg) /\ deg' = Ev.deg
Flip == Ev.op = "flip" /\ Ev.ok /\ deg' = Turn(deg) /\ Is(Ev.got, deg')
Other == Ev.op \notin {"hold", "flip"} /\ Pure(Ev) /\ UNCHANGED deg
Step == /\ ~bad /\ l <= Len(Ses.events) /\ l' = l + 1 /\ UNCHANGED <<s, bad>> /\ (Hold \/ Flip \/ Other)
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ ~ENABLED Step /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<deg, s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE /\ deg = 0
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<deg, s, l, bad>>
=============================================================================

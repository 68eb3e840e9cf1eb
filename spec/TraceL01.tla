------------------------------ MODULE TraceL01 ------------------------------
EXTENDS Globe, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
\* The same meridian, in the form asked for
Forms(e) == /\ \A k \in {1, 2} : e.rel[k] \in -1440..1440 /\ Whole(Circle, e.rel[k] - e.lon) = 0
            /\ \A k \in {1, 2} : e.abs[k] \in 0..2880 /\ Whole(Circle, e.abs[k] - e.lon) = 0
            /\ \A k \in {1, 2} : e.back[k] \in -1440..1440 /\ Whole(Circle, e.back[k] - e.lon) = 0
Latitudes(e) == /\ e.abs \in 0..1440 /\ (e.abs - e.lat) \in {0, 1440}
                /\ \A k \in {1, 2} : e.rel[k] = e.lat
                /\ \A k \in {1, 2} : e.back[k] = e.lat
Box(e) == /\ Len(e.got) = Len(e.lons)
          /\ \A j \in 1..Len(e.lons) :
               e.got[j] = (Within(Circle, e.w, e.e, e.lons[j]) /\ e.s <= e.lat /\ e.lat <= e.n)
\* A mile is 1609 metres, give or take the radii
Miles(e) == e.km = <<>> \/ LET want == (e.km[1] * 1000) \div 1609 IN Near(e.d, want, 8 + (want \div 200))
Dist(e) == /\ e.d \in 0..Half(e.u) + 12 /\ Near(e.back, e.d, 1) /\ Near(e.form, e.d, 1)
           /\ (e.same => e.d = 0)
           /\ (e.line # <<>> => Close(e.d, Arc(e.line[1], e.u)))
           /\ (e.deg # <<>> => Haversine(e.deg[1], e.deg[2], e.d, e.u))
           /\ Miles(e)
\* Three places: no way round is shorter
Triangle(e) == \A k \in 1..3 : e.d[k] <= e.d[(k % 3) + 1] + e.d[((k + 1) % 3) + 1] + 2
OK(e) == CASE e.op = "lon" -> Forms(e) [] e.op = "lat" -> Latitudes(e) [] e.op = "box" -> Box(e)
           [] e.op = "dist" -> Dist(e) [] e.op = "triangle" -> Triangle(e)
           [] e.op = "antipode" -> Close(e.d, Half(e.u)) /\ Near(e.back, e.d, 1)
           [] e.op = "counted" -> \A k \in 1..3 : Near(e.got[k], e.d, 1)
           [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

------------------------------ MODULE TraceE01 ------------------------------
(* Places in 1/100 of a degree (as they were meant: west negative), times in   *)
(* seconds from the midnight that begins the day asked for.                    *)
EXTENDS Sun, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]

Valid(t) == t.lat \in -9000..9000 /\ t.lng \in -18000..18000
Day(e, t) ==
  LET sd == SinDecl(t.day, t.lng) IN
  IF ~Valid(t) \/ (~Rises(t.lat, sd) /\ ~Edge(t.lat, sd)) THEN e.sun = <<>>
  ELSE /\ ~Edge(t.lat, sd) => e.sun # <<>>
       /\ e.sun # <<>> => LET up == e.sun[1] down == e.sun[2] IN
            /\ up < down /\ down - up < 86400
            \* Around noon, as long as it is there on that day
            /\ Near((up + down) \div 2, Noon(t.day, t.lng), 60)
            /\ Fits(t.lat, sd, (down - up) \div 2)
\* Other forms of the same place, other times of the same day
Same(e, t) == \A i \in 1..Len(e.suns) : e.suns[i] = e.suns[1]
East(e) == \A i \in 1..(Len(e.ups) - 1) : e.ups[i] # <<>> /\ e.ups[i + 1] # <<>> => e.ups[i][1] > e.ups[i + 1][1]

Site == "https://api.weather.gov/"
Cell(t) == Site \o "gridpoints/" \o t.office \o "/" \o t.x \o "," \o t.y
Address(e, t) ==
  CASE e.what = "points" -> e.before = Site \o "points/" /\ e.lat = t.lat /\ (e.lng - t.lng) % 3600000 = 0
    [] e.what = "cell" -> e.url = Cell(t)
    [] e.what = "forecast" -> e.url = Cell(t) \o "/forecast"
    [] e.what = "hourly" -> e.url = Cell(t) \o "/forecast/hourly"
    [] OTHER -> FALSE
OK(e, t) ==
  CASE e.op = "day" -> Day(e, t)
    [] e.op = "same" -> Same(e, t)
    [] e.op = "east" -> East(e)
    [] e.op = "address" -> Address(e, t)
    [] e.op = "grid" -> e.office = t.office /\ e.x = t.x /\ e.y = t.y
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

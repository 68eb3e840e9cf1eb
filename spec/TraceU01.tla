------------------------------ MODULE TraceU01 ------------------------------
EXTENDS Units, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]

\* There and back, within 0.2 percent (0.2 degrees)
Back(e) == IF e.from \in Temperatures THEN Near(e.x, e.back, e.one \div 5 + 2)
           ELSE Near(e.x, e.back, Abs(e.x) \div 500 + 2)
Convert(e) == IF Related(e.from, e.to)
              THEN Finite(e.y) /\ Converts(e.from, e.to, e.x, e.y, e.one) /\ Back(e)
              ELSE Kind(e.from) # Kind(e.to) \/ e.from = e.to => e.same

System(e) ==
  LET t == SystemUnit(e.unit, e.sys) IN
  /\ e.to = t /\ e.target = t /\ e.againunit = t
  /\ Len(e.was) = Len(e.now) /\ Len(e.again) = Len(e.now) /\ e.name = "some quantity"
  /\ t = e.unit => e.same
  /\ Len(e.now) = 1 => /\ Near(e.now[1], e.alone[1], 1)
                       /\ Near(e.again[1], e.now[1], 0)
                       /\ t # e.unit => Converts(e.unit, t, e.was[1] \div 10, e.now[1] \div 10, 100)
  \* The same for whole numbers (to the whole) and for headings (never converted)
  /\ e.wholeunit = t
  /\ Len(e.whole) = Len(e.was) /\ Len(e.wholealone) = Len(e.was) /\ Len(e.wholeagain) = Len(e.was)
  /\ Len(e.whole) = 1 => Near(e.whole[1], e.wholealone[1], 1) /\ e.wholeagain[1] = e.whole[1]
  /\ e.headingunit = "Degrees" /\ e.heading = IF Len(e.was) = 1 THEN <<e.deg>> ELSE <<>>
OK(e) == CASE e.op = "convert" -> Convert(e)
           [] e.op = "system" -> System(e)
           \* The earth in km or miles, sea water in kg or lb to the cubic meter or foot (tenths)
           [] e.op = "constants" -> IF e.sys = "Metric" THEN Near(e.earth, 6371, 7) /\ Near(e.sea, 10270, 40)
                                    ELSE Near(e.earth, 3959, 5) /\ Near(e.sea, 640, 3)
           [] OTHER -> FALSE

Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

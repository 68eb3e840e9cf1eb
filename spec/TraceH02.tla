------------------------------ MODULE TraceH02 ------------------------------
EXTENDS Filter, FiniteSets, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
OK(e, t) ==
  CASE e.op = "filtered" -> e.kept = Kept(t.components) /\ e.same
    [] e.op = "false" -> {e.list[j] : j \in 1..Len(e.list)} = Mirrored(t.components) /\ Len(e.list) = Cardinality(Mirrored(t.components))
    [] e.op = "english" ->
         /\ {e.list[j] : j \in 1..Len(e.list)} = Mirrored(t.components)
         /\ Len(e.components) = Len(t.components)
         \* the j-th component was j meters high
         /\ \A j \in 1..Len(t.components) : LET c == e.components[j] IN
               c.unit = "Feet" /\ c.rest = e.was[j] /\ c.h - 3281 * j <= 2 * j /\ 3281 * j - c.h <= 2 * j
         /\ e.summary.unit = "Feet" /\ e.summary.h = 0
    [] e.op = "made" ->
         /\ e.height = (CASE e.system = "metric" -> "Meters" [] e.system = "english" -> "Feet" [] OTHER -> "Unknown") \o " Some(1.25)"
         /\ e.period = "Seconds Some(9.5)" /\ e.direction = "Degrees Some(85)" /\ e.density = "MetersSquaredPerHertz Some(2.5)"
         /\ e.energy = "KiloJoules Some(3.5)" /\ e.part = 4 /\ e.bare
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

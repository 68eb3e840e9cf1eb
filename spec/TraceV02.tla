------------------------------ MODULE TraceV02 ------------------------------
EXTENDS Shown, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
\* A missing value has no text of its own; one that is there has the text it is shown by
Try(e) == e.try = (IF e.v = <<>> THEN <<>> ELSE <<e.text>>)
OK(e) ==
  CASE e.op = "number" -> e.text \in ShownAs(e.v, e.unit) /\ Try(e) /\ e.label = Abbrev[e.unit] /\ e.get = e.v /\ e.nan = (e.v = <<>>)
    [] e.op = "whole" -> e.text \in WholeAs(e.v, e.unit) /\ Try(e) /\ e.label = Abbrev[e.unit]
    [] e.op = "bearing" -> /\ e.text \in BearingAs(e.v, e.unit) /\ Try(e) /\ e.label = Abbrev[e.unit]
                           /\ e.get = e.v /\ e.bare = (IF e.v = <<>> THEN "0deg " ELSE Bearing(e.v[1]))
                           \* as a plain number
                           /\ e.plain.v = (IF e.v = <<>> THEN <<>> ELSE <<1000 * e.v[1]>>) /\ e.plain.unit = e.unit /\ e.plain.name = e.name
    [] e.op = "swell" -> e.text \in SwellAs(e.h, e.unit, e.p, e.d)
    \* A quantity read from a field of a table
    [] e.op = "raw" -> e.got = e.v /\ e.gotunit = e.unit /\ e.gotname = e.name
    [] e.op = "word" -> e.text = e.word
    \* What went wrong is said, with its cause, differently for each kind of failure
    [] e.op = "errors" -> /\ \A j \in 1..Len(e.texts) : e.texts[j] # "" /\ e.holds[j]
                          /\ Cardinality({e.texts[j] : j \in 1..Len(e.texts)}) = Len(e.texts)
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

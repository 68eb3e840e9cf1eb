------------------------------ MODULE TraceV01 ------------------------------
EXTENDS RecordTrace, Spellings
VARIABLES s, l, q, bad
Ses == Sessions[s]
Ev == Ses.events[l]

\* In 1/10^15 of the number: a last digit or two
Printing == 3
Round(e) == /\ e.after = e.before /\ e.off <= Printing
            /\ e.tree = e.before /\ e.treeoff <= Printing
            /\ e.again = e.text /\ e.againoff <= Printing
Quantity(e) == /\ e.nowunit = e.unit /\ e.nowname = e.name /\ e.now = e.value
               /\ e.label = e.unit /\ e.null = (e.value = <<>>)
OK(e) == CASE e.op = "to" -> To(q, Ses.init.rest, e)
           [] e.op = "publish" -> Publish(q, Ses.init.rest, e)
           [] e.op = "label" -> e.got = <<e.unit>>
           \* as the sources spell it, in any case and with blanks around
           [] e.op = "spelled" -> Known(e.text) /\ \A j \in 1..Len(e.got) : e.got[j] = Named(e.text)
           [] e.op = "number" -> e.got = <<e.value>>
           [] e.op = "nonumber" -> e.got = <<>>
           [] e.op = "quantity" -> Quantity(e)
           [] e.op = "round" -> Round(e)
           [] OTHER -> FALSE
Held(e) == IF e.op \in {"to", "publish"} THEN e.quantities ELSE q

Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = TRUE /\ l' = l + 1 /\ q' = Held(Ev) /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l, q>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE /\ q = Sessions[s].init.quantities
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, q, bad>>
=============================================================================

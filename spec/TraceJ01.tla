------------------------------ MODULE TraceJ01 ------------------------------
(* A session is one kind of axis with one cutoff                              *)
EXTENDS TimeAxis, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
\* How many there are from a to b, none if that is backwards
Count(a, b) == IF a <= b THEN b - a + 1 ELSE 0
OK(e, t) ==
  CASE e.op = "output" -> e.hour = HourOf(KindOf(t), CutOf(t), e.i) /\ e.back = e.i
    [] e.op = "hour" -> IndexOf(KindOf(t), CutOf(t), e.h, e.i)
    \* Each hour's output; each output's hour; and all outputs in effect from one hour to another
    [] e.op = "indexes" -> Len(e.got) = Count(e.a, e.b) /\ \A j \in 1..Len(e.got) : IndexOf(KindOf(t), CutOf(t), e.a + j - 1, e.got[j])
    [] e.op = "hours" -> Len(e.got) = Count(e.a, e.b) /\ \A j \in 1..Len(e.got) : e.got[j] = HourOf(KindOf(t), CutOf(t), e.a + j - 1)
    [] e.op = "span" -> /\ (e.a <= e.b => Len(e.got) >= 1)
                        /\ IndexOf(KindOf(t), CutOf(t), e.a, e.first) /\ IndexOf(KindOf(t), CutOf(t), e.b, e.last)
                        /\ Len(e.got) = Count(e.first, e.last)
                        /\ \A j \in 1..Len(e.got) : e.got[j] = HourOf(KindOf(t), CutOf(t), e.first + j - 1)
    [] e.op = "again" -> e.same
    \* each model under its own identifier, which its addresses name, and described
    [] e.op = "named" -> e.id # "" /\ e.named /\ e.name # "" /\ e.description # ""
    [] e.op = "models" -> Cardinality({e.ids[j] : j \in 1..Len(e.ids)}) = Len(e.ids) /\ Cardinality({e.descriptions[j] : j \in 1..Len(e.ids)}) = Len(e.ids)
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

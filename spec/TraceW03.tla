------------------------------ MODULE TraceW03 ------------------------------
(* Splitting by partition: part k (from 0) holds what is labelled k, no more.  *)
EXTENDS TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
Part(e, k) == [i \in 1..Len(e.energy) |-> IF e.labels[i] = k THEN e.energy[i] ELSE "0"]
Parts(e) == IF Len(e.limit) = 1 THEN e.limit[1] ELSE e.count
OK(e) ==
  CASE e.op = "split" -> /\ Len(e.parts) = Parts(e)
                         /\ \A k \in 1..Len(e.parts) : e.parts[k] = Part(e, k - 1)
                         /\ e.axes
                         \* each cell is in exactly one part, where no part is left out
                         /\ e.limit = <<>> => \A i \in 1..Len(e.energy) :
                              e.energy[i] # "0" /\ e.labels[i] \in 0..(e.count - 1) => Cardinality({k \in 1..Len(e.parts) : e.parts[k][i] = e.energy[i]}) = 1
    [] e.op = "part" -> e.part = Part(e, e.k) /\ e.axes
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

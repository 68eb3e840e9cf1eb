------------------------------ MODULE TraceH03 ------------------------------
(* A session is one spectrum in the records that hold one, a buoy's and a      *)
(* forecast's: what they tell of it, and what is left of that without mirrors. *)
EXTENDS Summaries, Filter
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
Named(C, K) == [j \in 1..Len(K) |-> C[K[j]].id]
OK(e, t) ==
  CASE e.op = "record" ->
         /\ Len(e.lab) = Len(t.e) /\ \A c \in 1..Len(e.lab) : e.lab[c] \in 0..e.parts
         /\ \A u \in {[f |-> t.f, ds |-> t.ds, e |-> t.e, conv |-> t.conv, limit |-> t.limit, lab |-> e.lab, parts |-> e.parts]} : SummaryFits(u, e)
         \* as its spectrum tells it, whichever units the rest is in
         /\ e.own /\ e.english
         /\ e.kept = Named(e.components, Kept(e.printed))
         \* the strongest stays
         /\ Len(e.components) > 0 => Len(e.kept) > 0 /\ e.kept[1] = e.components[1].id
    [] e.op = "refused" -> e.record /\ e.spectrum
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

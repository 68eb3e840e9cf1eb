------------------------------ MODULE TraceA02 ------------------------------
EXTENDS Stations, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
\* A station as it was read is the one listed
Reads(x, g) == /\ g.id = x.id /\ g.raw = x.raw /\ g.owner = x.owner /\ g.program = x.program /\ g.type = Types[x.type]
               /\ \A j \in 1..4 : g.has[j] = Has(x.flags[j])
               /\ g.lat = x.lat /\ g.lng = x.lng /\ g.elev = x.elev
All(xs, gs) == Len(xs) = Len(gs) /\ \A j \in 1..Len(xs) : Reads(xs[j], gs[j])
Feature(x, f) == /\ f.point = <<x.lng, x.lat>> /\ f.id = x.id /\ f.name = Name(x.name) /\ f.active = Active(x.flags) /\ f.type = Types[x.type]
\* What was observed there and nothing else: the quantities that are present, and the time
Observed(o, f) == /\ f.keys = {"date"} \union {o.quantities[j].field : j \in {k \in 1..Len(o.quantities) : Len(o.quantities[k].value) = 1}}
                  /\ f.epoch = o.epoch
                  /\ \A j \in 1..Len(f.values) : \E k \in 1..Len(o.quantities) : f.values[j] = o.quantities[k]
OK(e, t) ==
  CASE e.op = "read" -> e.count = t.count /\ All(t.stations, e.stations)
    [] e.op = "again" -> e.count = t.count /\ All(t.stations, e.stations)
    [] e.op = "given" -> e.count = Len(t.stations) /\ All(t.stations, e.stations)
    [] e.op = "same" -> \A ids \in {[j \in 1..Len(t.stations) |-> t.stations[j].id]} :
                          /\ \A j \in 1..Len(ids) : {e.same[j][k] : k \in 1..Len(e.same[j])} = {k \in 1..Len(ids) : ids[k] = ids[j]}
                          /\ e.distinct = Cardinality({ids[j] : j \in 1..Len(ids)}) /\ e.none = 0
    \* A station of which only the place is known: a buoy that reports its weather
    [] e.op = "bare" -> /\ Reads([id |-> e.id, raw |-> "", owner |-> "", program |-> "", type |-> "buoy", flags |-> <<"y", "n", "n", "n">>,
                                  lat |-> e.lat, lng |-> e.lng, elev |-> 0], e.got)
                        /\ e.name = "" /\ e.active
    [] e.op = "station" -> \A x \in {t.stations[e.at]} : /\ e.name = Name(x.name) /\ e.active = Active(x.flags) /\ e.id = x.id
                                                         /\ e.place = <<x.lat, x.lng, Name(x.name)>>
    [] e.op = "find" -> e.got = Find(t.stations, e.id)
    [] e.op = "feature" -> Feature(t.stations[e.at], e.feature)
    [] e.op = "features" -> Len(e.features) = Len(t.stations) /\ \A j \in 1..Len(e.features) : Feature(t.stations[j], e.features[j])
    [] e.op = "observations" ->
         /\ Len(e.features) = Len(t.stations) /\ ~e.nulls
         /\ \A j \in 1..Len(e.features) :
              /\ Feature(t.stations[j], e.features[j])
              /\ \A o \in {SelectSeq(t.observed, LAMBDA x : x.id = t.stations[j].id)} :
                   IF o = <<>> THEN e.features[j].obs = <<>>
                   ELSE Len(e.features[j].obs) = 1 /\ \A f \in {e.features[j].obs[1]} : Observed(o[1], [f EXCEPT !.keys = {f.keys[k] : k \in 1..Len(f.keys)}])
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

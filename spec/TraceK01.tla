------------------------------ MODULE TraceK01 ------------------------------
EXTENDS Tides, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
Same(g, p) == g.date = p.t /\ g.v = p.v /\ g.event = p.event
Records(doc, got) == Len(got) = Len(doc) /\ \A j \in 1..Len(doc) : Same(got[j], doc[j])
\* A list taken in is whole; a damaged one is an error
Read(e, t) == IF Intact(t.doc) /\ t.whole THEN Len(e.got) = 1 /\ Records(t.doc, e.got[1]) ELSE e.got = <<>>
\* What is written and read again, and written again
Again(e, t) == Len(e.got) = 1 /\ Records(t.doc, e.got[1]) /\ e.exact /\ e.stable
Stations(e, t) == /\ e.count = Len(t.ids) /\ Len(e.found) = Len(e.asked)
                  /\ \A j \in 1..Len(e.asked) : LET k == Listed(t.ids, e.asked[j]) IN
                        IF k = 0 THEN e.found[j] = <<>>
                        ELSE e.found[j] = <<t.stations[k]>>
Feature(e, t) == /\ e.type = "Point" /\ e.at = <<t.stations[e.k].lng, t.stations[e.k].lat>>
                 /\ e.id = t.stations[e.k].id /\ e.name = t.stations[e.k].name /\ e.state = t.stations[e.k].state
                 /\ e.place = <<t.stations[e.k].lat, t.stations[e.k].lng, t.stations[e.k].name>>
Address(e) == /\ e.base = "https://api.tidesandcurrents.noaa.gov/api/prod/datagetter"
              /\ e.q = [begin_date |-> Moment(e.start), end_date |-> Moment(e.end), station |-> e.id,
                        product |-> "predictions", datum |-> e.datum, interval |-> Interval(e.interval),
                        units |-> UnitsName(e.units), time_zone |-> "gmt", application |-> "web_services", format |-> "json"]
OK(e, t) == CASE e.op = "read" -> Read(e, t) [] e.op = "again" -> Again(e, t) [] e.op = "stations" -> Stations(e, t)
              [] e.op = "feature" -> Feature(e, t) [] e.op = "address" -> Address(e)
              [] e.op = "directory" -> e.url = "https://api.tidesandcurrents.noaa.gov/mdapi/prod/webapi/stations.json?type=tidepredictions&units=english" [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

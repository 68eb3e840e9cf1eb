------------------------------ MODULE TraceA01 ------------------------------
EXTENDS Address, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
Kinds(ts) == [j \in 1..Len(ts) |-> ts[j].k]
\* What a well-formed text stands for
Meant(ts) == [var |-> ts[1].s,
              ranges |-> [j \in 1..((Len(ts) - 1) \div 7) |-> <<ts[7 * (j - 1) + 3].v, ts[7 * (j - 1) + 5].v, ts[7 * (j - 1) + 7].v>>]]
Source(w) == IF w \in {"aws", "amazon"} THEN <<"aws">> ELSE IF w \in {"gcp", "gcs", "google"} THEN <<"gcp">>
             ELSE IF w \in {"nomads", "noaa"} THEN <<"nomads">> ELSE <<>>
OK(e, t) ==
  CASE e.op = "buoy" -> e.url = Buoy(e.what, e.id)
    [] e.op = "directory" -> e.urls = Directories
    [] e.op = "archive" -> /\ e.root = Archived(e.what, e.id) /\ e.das = e.root \o ".das" /\ e.dds = e.root \o ".dds"
                           /\ e.dods = Dods(Archived(e.what, e.id), e.constraints)
    [] e.op = "forecast" -> e.url = Forecast(e.what, e.id, e.src, e.run)
    [] e.op = "listing" -> e.listing = Listing(e.src, e.run) /\ e.root = BulletinRoot(e.src, e.run)
    [] e.op = "grid" -> LET run == RunAt(e.t) IN
                        /\ Latest(run, e.t, "gridded") /\ e.run = run
                        /\ e.url = Grid(e.model, e.src, e.hour, run) /\ e.idx = e.url \o ".idx"
    [] e.op = "constraint" -> IF WellFormed(Kinds(e.toks)) THEN e.got = <<Meant(e.toks)>> ELSE e.got = <<>>
    [] e.op = "again" -> e.text = Constraint(e.c) /\ e.got = <<e.c>>
    [] e.op = "list" -> e.text = Constraints(e.cs)
    [] e.op = "source" -> e.got = Source(e.word)
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

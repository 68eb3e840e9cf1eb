------------------------------ MODULE TraceM01 ------------------------------
EXTENDS MetTable, RecordTrace
VARIABLES s, l, q, bad
Ses == Sessions[s]
Ev == Ses.events[l]
\* One quantity, as it stands in the file or in a system of units
QFits(x, name, unit, sys, g) ==
  LET u == IF sys = "" THEN unit ELSE SystemUnit(unit, sys) IN
  /\ g.path = name /\ g.unit = u
  /\ IF Num(x) THEN Len(g.value) = 1 /\ Value(unit, u, Val(x), g.value[1]) ELSE g.value = <<>>
MetFits(kind, r, sys, g) ==
  /\ g.date = DateOf(Stamp_(kind, r))
  /\ Len(g.quantities) = 12 /\ Len(g.bearings) = 2
  /\ \A j \in 1..12 : QFits(r[Col(kind, j)], Quantities[j][2], Quantities[j][3], sys, g.quantities[j])
  /\ \A j \in 1..2 : /\ g.bearings[j].path = Bearings[j][2] /\ g.bearings[j].unit = "Degrees"
                     /\ DirFits(r[BearingCol(kind, j)], g.bearings[j].value)
  /\ IF kind = "latest" THEN g.id = r[1].s /\ g.lat = Val(r[2]) /\ g.lng = Val(r[3]) ELSE g.id = ""
\* One quantity taken from one unit to another
Taken(a, b, sys) == /\ b.path = a.path /\ b.unit = SystemUnit(a.unit, sys) /\ Len(b.value) = Len(a.value)
                    /\ Len(a.value) = 1 => Value(a.unit, b.unit, a.value[1], b.value[1])
Find(m, name) == SelectSeq(m, LAMBDA x : x.path = name)
OK(e, t, p) ==
  CASE e.op = "row" -> IF MetOK(t.kind, t.lines[e.line].toks)
                       THEN Len(e.got) = 1 /\ MetFits(t.kind, t.lines[e.line].toks, "", e.got[1])
                       ELSE e.got = <<>>
    \* a file comes out in metric units
    [] e.op = "read" -> \A g \in {MetRows(t.kind, t.lines)} :
                          /\ Len(e.records) = Len(g)
                          /\ \A j \in 1..Len(g) : MetFits(t.kind, t.lines[g[j]].toks, "Metric", e.records[j])
    [] e.op = "to" -> /\ Len(e.quantities) = 12 /\ \A j \in 1..12 : Taken(p[j], e.quantities[j], e.sys)
                      /\ e.rest = t.rest
                      /\ \A j \in 1..12 : e.quantities[j].unit = t.quantities[j].unit /\ Len(p[j].value) = 1
                                            => Close(p[j].unit, t.quantities[j].value[1], e.quantities[j].value[1])
    [] e.op = "swell" -> /\ e.h = p[3] /\ e.p = p[4] /\ e.d = t.bearings[2] /\ e.others = 0
    \* every quantity under its own name, and the time of the observation
    [] e.op = "map" -> /\ Len(e.entries) = 15
                       /\ \A j \in 1..12 : Find(e.entries, p[j].path) = <<p[j]>>
                       /\ \A j \in 1..2 : \A b \in {t.bearings[j]} : Find(e.entries, b.path) = <<[path |-> b.path, unit |-> b.unit, value |-> [k \in 1..Len(b.value) |-> b.value[k].deg * 1000]]>>
                       /\ e.epoch = t.epoch
    [] e.op = "texts" -> /\ Len(e.entries) = 14 /\ Len(e.own) = 14
                         /\ \A j \in 1..14 : e.own[j].path = (IF j <= 12 THEN Quantities[j][2] ELSE Bearings[j - 12][2])
                                             /\ Find(e.entries, e.own[j].path) = <<e.own[j]>>
    [] e.op = "place" -> e.id = t.id /\ e.lat = t.lat /\ e.lng = t.lng
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init, q) = TRUE /\ l' = l + 1 /\ q' = (IF Ev.op = "to" THEN Ev.quantities ELSE q) /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init, q) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l, q>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE /\ q = Sessions[s].init.quantities
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, q, bad>>
=============================================================================

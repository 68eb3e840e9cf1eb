------------------------------- MODULE Bulletin -------------------------------
(* Wave bulletins: rows carry only the day of the month and the hour. Tokens:  *)
(* [t |-> "h", d, h] day and hour, [t |-> "i", v] a whole number in 1/1000,     *)
(* [t |-> "x", v] one with decimals, [t |-> "w"] words.                        *)
EXTENDS Calendar

NextMonth(y, m) == IF m < 12 THEN <<y, m + 1>> ELSE <<y + 1, 1>>
\* The month a row with this day number lies in, for a run on a date
MonthOf(run, day) == IF day >= run[3] THEN <<run[1], run[2]>> ELSE NextMonth(run[1], run[2])
Possible(run, day) == LET m == MonthOf(run, day) IN IsDate(m[1], m[2], day)
FirstOn(run, day) == LET m == MonthOf(run, day) IN <<m[1], m[2], day>>

\* An unreadable total height leaves open whether the row counts
Number(x) == x.t \in {"i", "x"}
Height(r) == Number(r[2])
RowOK(run, r) == /\ Len(r) >= 2 /\ (Len(r) - 2) % 3 = 0
                 /\ r[1].t = "h" /\ r[1].h \in 0..23 /\ Possible(run, r[1].d)
                 /\ \A j \in 3..Len(r) : IF (j - 2) % 3 = 0 THEN r[j].t = "i" ELSE Number(r[j])
Count(r) == (Len(r) - 2) \div 3
AbsB(x) == IF x < 0 THEN 0 - x ELSE x
\* got, in 1/1000 of a meter, is so many 1/1000 feet
Metric(feet, got) == AbsB(1000 * got - 305 * feet + feet \div 5) <= feet \div 2 + 1000
English(feet, got) == got = feet
Close(x, y, tol) == x - y <= tol /\ y - x <= tol
\* The energy of a component follows from its height in meters and its period
Energetic(c, feet) == feet = 0 \/ Close(c.ratio, 1970080, 8000)
Component(c, h, p, d, metric) ==
  /\ Len(c.h) = 1 /\ (IF metric THEN Metric(h.v, c.h[1]) ELSE English(h.v, c.h[1]))
  /\ c.p = <<p.v>> /\ Len(c.d) = 1 /\ 1000 * c.d[1].deg = d.v
  /\ c.units = (IF metric THEN "Meters Seconds" ELSE "Feet Seconds")
  /\ Energetic(c, IF p.v = 0 THEN 0 ELSE h.v)
RowFits(run, r, g, metric) ==
  /\ g.date = FirstOn(run, r[1].d) \o <<r[1].h, 0>>
  /\ IF Height(r) THEN Len(g.h) = 1 /\ (IF metric THEN Metric(r[2].v, g.h[1]) ELSE English(r[2].v, g.h[1])) ELSE g.h = <<>>
  /\ g.units = (IF metric THEN "Meters" ELSE "Feet")
  /\ Len(g.components) = Count(r)
  /\ \A j \in 1..Count(r) : Component(g.components[j], r[3 * j], r[3 * j + 1], r[3 * j + 2], metric)
  \* and the record sums up as its dominant system under the total height; without systems it cannot
  /\ IF Count(r) = 0 THEN g.swell = <<>>
     ELSE /\ Len(g.swell) = 1
          /\ g.swell[1].h = g.h /\ g.swell[1].p = g.components[1].p /\ g.swell[1].d = g.components[1].d
          /\ g.swell[1].n = Count(r)
HeaderOK(h) == h.location /\ h.cycle /\ IsDate(h.run[1], h.run[2], h.run[3]) /\ h.run[4] \in 0..23
HeaderFits(h, g) == /\ g.name = h.name /\ g.date = h.run \o <<0>>
                    /\ g.lat = (IF h.south THEN 0 - h.lat ELSE h.lat) /\ g.lon = (IF h.west THEN 0 - h.lon ELSE h.lon)
=============================================================================

------------------------------ MODULE TraceJ02 ------------------------------
(* A session is one field, with values in 1/1000 and positions in 1/768 degree *)
EXTENDS Integers, Sequences, TraceKit, Units
F == INSTANCE GridField WITH Full <- 276480, None <- NaN
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]

\* ---- contours: as many as asked for, from the lower to the upper threshold,
\* every other one labelled, the same as those of the field given in that unit
Spread(fs, n, lo, hi) ==
  /\ Len(fs) = n
  /\ \A k \in 1..n : Near(fs[k].threshold * (n - 1), lo * (n - 1) + (hi - lo) * (k - 1), 2 * n)
Rounded(x) == (x + 500) \div 1000
\* Halfway, binary fractions go either way
Label(k, v, unit) == IF k % 2 = 1 THEN {""}
                     ELSE {(IF r < 0 THEN "-" \o ToString(0 - r) ELSE ToString(r)) \o unit : r \in {Rounded(v - 3), Rounded(v + 3)}}
                          \union (IF Rounded(v - 3) = 0 \/ Rounded(v + 3) = 0 \/ v < 0 THEN {"-0" \o unit} ELSE {})
Suffix == [Meters |-> "m", Feet |-> "ft", MetersPerSecond |-> "m/s", MilesPerHour |-> "mph", Knots |-> "kt", Seconds |-> "s", Celsius |-> "~b0C", Fahrenheit |-> "~b0F", Kelvin |-> "K"]
Contoured(e, t) ==
  LET fs == e.got[1] n == Len(fs) to == IF e.sys = "" THEN e.unit ELSE SystemUnit(e.unit, e.sys) IN
  /\ Len(e.got) = 1 /\ e.to = to
  /\ n = e.count
  /\ \A k \in 1..n : fs[k].label \in Label(k, fs[k].threshold, IF e.sys = "" THEN e.text ELSE Suffix[to])
  \* the first and the last threshold: as asked for, or the extremes, converted
  /\ \A lo \in {fs[1].threshold}, hi \in {fs[n].threshold} :
       /\ Spread(fs, n, lo, hi)
       /\ IF Len(e.min) = 1 THEN Near(lo, e.min[1], 1) ELSE IF e.unit = to THEN Near(lo, e.lo, 1) ELSE Converts(e.unit, to, e.lo, lo, 1000)
       /\ IF Len(e.max) = 1 THEN Near(hi, e.max[1], 1) ELSE IF e.unit = to THEN Near(hi, e.hi, 1) ELSE Converts(e.unit, to, e.hi, hi, 1000)
  /\ Len(e.plain) = n
  /\ \A k \in 1..n : fs[k].shape = e.plain[k].shape /\ fs[k].threshold = e.plain[k].threshold /\ fs[k].normalized = e.plain[k].normalized

\* Extremes of what is not missing
Values(t) == {t.vals[k] : k \in {j \in 1..Len(t.vals) : t.vals[j] # NaN}}
Extremes(e, t) == e.lo \in Values(t) /\ e.hi \in Values(t) /\ \A v \in Values(t) : e.lo <= v /\ v <= e.hi

OK(e, t) ==
  IF e.op = "contours" THEN Extremes(e, t) /\ Contoured(e, t)
  ELSE IF e.op \notin {"around", "nearest", "between"} THEN FALSE
  ELSE IF ~t.data \/ ~F!Covers(t, e.lat, e.lng) THEN e.got = <<>>
  ELSE /\ Len(e.got) = 1
       /\ CASE e.op = "around" -> e.got[1] = F!Around(t, e.lat, e.lng, e.tol)
            [] e.op = "nearest" -> e.got[1] \in F!Nearest(t, e.lat, e.lng)
            [] e.op = "between" -> IF F!Blank(t, e.lat, e.lng) THEN e.got[1] = NaN
                                   ELSE e.got[1] < 4000000 /\ e.got[1] > -4000000 /\ Near(e.got[1] * 256, F!Between256(t, e.lat, e.lng), 300)
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

------------------------------ MODULE TraceX02 ------------------------------
EXTENDS Helpers, Peaks, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]

\* A value lies in its bin: from its own edge to the next, values in 1/10000
Binned(e) == \A i \in 1..Len(e.data) :
   LET b == e.got.bin[i]
       at(k) == e.min * e.bins + (e.max - e.min) * k  \* edge k, times bins
   IN /\ b \in 0..e.bins
      /\ Near(e.got.edge[i] * e.bins, at(b), e.bins)
      /\ e.data[i] * e.bins >= at(b) - e.bins
      /\ e.data[i] * e.bins <= at(b + 1) + e.bins
      /\ e.data[i] = e.max => b = e.bins
      /\ e.got.again[i] = b
      /\ \A j \in 1..Len(e.data) : e.data[i] <= e.data[j] => b <= e.got.bin[j]

Extreme(e) == LET S == Values(e.data, NaN) IN
   e.got.min = MinOf(S, Inf) /\ e.got.max = MaxOf(S, -Inf)

Lerp(v, i) == v[1] * (64 - i) + v[2] * i
OK(e) == e.ok /\
  CASE e.op = "argsort" -> StableSort(e.data, e.got)
    [] e.op = "diff" -> e.got = Diff(e.data)
    [] e.op = "diffabs" -> e.got = [i \in 1..Len(e.data) |-> Abs(Diff(e.data)[i])]
    [] e.op = "peaks" -> LET r == Detect(e.data, e.delta) IN
                         e.got.mins = r.mins /\ e.got.maxs = r.maxs /\ Contract(e.data, e.delta, r)
    [] e.op = "minmax" -> Extreme(e)
    [] e.op = "minmaxfill" -> /\ Extreme(e)
                              /\ e.got.after = [i \in 1..Len(e.data) |-> IF e.data[i] = NaN THEN e.fill ELSE e.data[i]]
    [] e.op = "bin" -> Binned(e)
    [] e.op = "lerp" -> Near(e.got, Lerp(e.v, e.i), 1)
    [] e.op = "bilerp" -> Near(e.got, (e.v[1] * (64 - e.i) + e.v[2] * e.i) * (64 - e.j)
                                      + (e.v[3] * (64 - e.i) + e.v[4] * e.i) * e.j, 1)
    [] e.op = "missing" -> e.got = IF e.v = e.m THEN <<>> ELSE <<e.v>>
    [] e.op = "equal" -> e.got = (e.v = e.m)
    [] OTHER -> FALSE

Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

-------------------------------- MODULE Peaks --------------------------------
(* Peak detection as a scan: the state is what has been reported and the      *)
(* extremes since the last report. One action per entry of the data.          *)
EXTENDS Integers, Sequences

\* st = [max, maxpos, min, minpos : value and position since the last report, or none yet
\*       up : looking for a maximum, maxs, mins : positions reported]
Start == [some |-> FALSE, max |-> 0, maxpos |-> 0, min |-> 0, minpos |-> 0, up |-> TRUE, maxs |-> <<>>, mins |-> <<>>]

Look(st, i, v) == LET a == IF ~st.some \/ v > st.max THEN [st EXCEPT !.max = v, !.maxpos = i] ELSE st
                      b == IF ~st.some \/ v < st.min THEN [a EXCEPT !.min = v, !.minpos = i] ELSE a
                  IN [b EXCEPT !.some = TRUE]
ReportMax(st, i, v, delta) == /\ st.up /\ v < st.max - delta
ReportMin(st, i, v, delta) == /\ ~st.up /\ v > st.min + delta
Scan(st0, i, v, delta) ==
  LET st == Look(st0, i, v) IN
  IF ReportMax(st, i, v, delta) THEN [st EXCEPT !.maxs = Append(@, st.maxpos), !.min = v, !.minpos = i, !.up = FALSE]
  ELSE IF ReportMin(st, i, v, delta) THEN [st EXCEPT !.mins = Append(@, st.minpos), !.max = v, !.maxpos = i, !.up = TRUE]
  ELSE st

RECURSIVE ScanFrom(_, _, _, _)
ScanFrom(st, i, data, delta) == IF i > Len(data) THEN st
                                ELSE ScanFrom(Scan(st, i - 1, data[i], delta), i + 1, data, delta)
Detect(data, delta) == ScanFrom(Start, 1, data, delta)

\* The contract: maxima and minima alternate starting with a maximum, in order, each more than
\* delta away from the one before, and no entry between two reports is beyond them.
At(data, i) == data[i + 1]
Turns(r) == [k \in 1..(Len(r.maxs) + Len(r.mins)) |-> IF k % 2 = 1 THEN r.maxs[(k + 1) \div 2] ELSE r.mins[k \div 2]]
Contract(data, delta, r) ==
  /\ Len(r.maxs) - Len(r.mins) \in {0, 1}
  /\ LET t == Turns(r) IN
     /\ \A k \in 1..Len(t) : t[k] \in 0..(Len(data) - 1)
     /\ \A k \in 1..(Len(t) - 1) :
          /\ t[k] < t[k + 1]
          /\ IF k % 2 = 1 THEN At(data, t[k]) > At(data, t[k + 1]) + delta
                          ELSE At(data, t[k]) + delta < At(data, t[k + 1])
          /\ \A i \in t[k]..t[k + 1] :
               LET lo == IF k % 2 = 1 THEN At(data, t[k + 1]) ELSE At(data, t[k])
                   hi == IF k % 2 = 1 THEN At(data, t[k]) ELSE At(data, t[k + 1])
               IN lo <= At(data, i) /\ At(data, i) <= hi
=============================================================================

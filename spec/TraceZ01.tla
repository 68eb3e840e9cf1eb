------------------------------ MODULE TraceZ01 ------------------------------
(* A session is one grid and one way of drawing it: ps doubled periods, raw    *)
(* directions in whole degrees.                                               *)
EXTENDS Cartesian, TraceKit
VARIABLES s, l, bins, drawn, bad
Ses == Sessions[s]
Ev == Ses.events[l]
FromDirs(t) == [i \in 1..Len(t.ds) |-> FromDir(t.conv, t.ds[i])]
BinsOf(t) == Bins(t.n, t.ps, FromDirs(t), t.limit, t.half)
\* idx 0 stands for nothing to show
Shows(t, B, idx, j) == IF B = {} THEN idx = 0
                       ELSE \E b \in B : b[1] = idx /\ Nearest(B, Pixel(t.n, j), b[2])
Value(data, idx) == IF idx = 0 THEN NaN ELSE data[idx]
OK(e, t, B, d) ==
  CASE e.op = "map" -> /\ e.size = t.n /\ Len(e.indices) = t.n * t.n
                       /\ \A j \in 1..Len(e.indices) : Shows(t, B, e.indices[j], j)
    \* Drawn directly or through the map: the same picture, of whatever data is given
    [] e.op = "image" -> /\ Len(e.direct) = t.n * t.n
                         /\ e.mapped = e.direct /\ e.other = e.direct
                         /\ Len(d) > 0 => e.mapped = [j \in 1..Len(d) |-> Value(e.data, d[j])]
    [] OTHER -> FALSE
Drawn(e) == IF e.op = "map" THEN e.indices ELSE drawn

Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init, bins, drawn) = TRUE /\ l' = l + 1 /\ drawn' = Drawn(Ev) /\ UNCHANGED <<s, bins, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init, bins, drawn) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l, bins, drawn>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE /\ bins = BinsOf(Sessions[s].init) /\ drawn = <<>>
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bins, drawn, bad>>
=============================================================================

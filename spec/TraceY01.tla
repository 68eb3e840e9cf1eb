------------------------------ MODULE TraceY01 ------------------------------
(* Values and thresholds in 1/10, coordinates of grid contours in 1/100 of a  *)
(* cell, of longitude-latitude contours in 1/100 of a degree.                 *)
EXTENDS Contour, Trig, TraceKit
VARIABLES s, l, base, bad
Ses == Sessions[s]
Ev == Ses.events[l]

Rings(fe) == fe.rings
\* One feature per threshold, in their order, levels from 0 to 1
Levels(fs, ts) ==
  LET n == Len(ts) span == ts[n] - ts[1] IN
  /\ Len(fs) = n
  /\ \A k \in 1..n : /\ Near(fs[k].threshold, ts[k], 1)
                     /\ k < n => fs[k].threshold < fs[k + 1].threshold
                     /\ fs[k].normalized \in 0..10000
                     /\ Near(fs[k].normalized * span, (ts[k] - ts[1]) * 10000, 2 * span + 20000)
                     /\ \A r \in 1..Len(fs[k].rings) : Closed(fs[k].rings[r])
  /\ fs[1].normalized = 0 /\ fs[n].normalized = 10000
Labelled(fs, labels) == \A k \in 1..Len(fs) : fs[k].label = labels[k]
Inside(fs, x0, x1, y0, y1) == \A k \in 1..Len(fs) : \A r \in 1..Len(fs[k].rings) : \A q \in 1..Len(fs[k].rings[r]) :
                                LET p == fs[k].rings[r][q] IN p[1] >= x0 - 1 /\ p[1] <= x1 + 1 /\ p[2] >= y0 - 1 /\ p[2] <= y1 + 1

\* A cell that differs enough from the threshold, for what there is around it, to be well inside or well outside
Around(w, h, i, j) == {c \in (1..w) \X (1..h) : Abs(c[1] - i) <= 1 /\ Abs(c[2] - j) <= 1}
Clear(w, h, d, i, j, t) ==
  LET v == CellAt(w, d, i, j) IN
  IF v = Missing THEN TRUE
  ELSE \A c \in Around(w, h, i, j) : LET o == CellAt(w, d, c[1], c[2]) IN o # Missing /\ Abs(v - t) * 15 >= Abs(o - v)
Enclosing(w, h, d, fs, ts, cells, Px(_), Py(_)) ==
  \A k \in 1..Len(fs) : \A c \in cells :
     Clear(w, h, d, c[1], c[2], ts[k]) /\ CellAt(w, d, c[1], c[2]) # ts[k] =>
       Encloses(fs[k].rings, <<Px(c[1]), Py(c[2])>>) = Above(CellAt(w, d, c[1], c[2]), ts[k])
All(w, h) == (1..w) \X (1..h)

Grid(e, t) ==
  LET fs == e.features IN
  /\ Levels(fs, t.thresholds)
  /\ Labelled(fs, e.labels)
  /\ Inside(fs, 0, 100 * t.w, 0, 100 * t.h)
  /\ Enclosing(t.w, t.h, t.data, fs, t.thresholds, All(t.w, t.h), LAMBDA i : 100 * i - 50, LAMBDA j : 100 * j - 50)
Same(fs, gs) == /\ Len(fs) = Len(gs)
                /\ \A k \in 1..Len(fs) : fs[k].rings = gs[k].rings /\ fs[k].threshold = gs[k].threshold
\* The same rings, point by point transformed: x' = a x + b y + c, y' = p x + q y + r (c and r in cells)
Moved(fs, gs, m) ==
  /\ Len(fs) = Len(gs)
  /\ \A k \in 1..Len(fs) : /\ Len(fs[k].rings) = Len(gs[k].rings)
       /\ \A r \in 1..Len(fs[k].rings) : /\ Len(fs[k].rings[r]) = Len(gs[k].rings[r])
            /\ \A q \in 1..Len(fs[k].rings[r]) :
                 LET a == fs[k].rings[r][q] b == gs[k].rings[r][q] IN
                 /\ Near(b[1], m[1] * a[1] + m[2] * a[2] + 100 * m[3], Abs(m[1]) + Abs(m[2]) + 1)
                 /\ Near(b[2], m[4] * a[1] + m[5] * a[2] + 100 * m[6], Abs(m[4]) + Abs(m[5]) + 1)

\* A grid that comes around the globe is closed by its first column once more
Width(t) == IF t.global THEN t.w + 1 ELSE t.w
Data(t) == IF t.global THEN [k \in 1..((t.w + 1) * t.h) |-> LET i == (k - 1) % (t.w + 1) j == (k - 1) \div (t.w + 1) IN
                                t.data[(IF i = t.w THEN 1 ELSE i + 1) + j * t.w]]
           ELSE t.data
East(t) == IF t.global THEN t.around ELSE t.lng[2]
Spread(e, t, w, d) ==
  LET fs == e.features x0 == t.lng[1] x1 == East(t) y0 == t.lat[1] y1 == t.lat[2] IN
  /\ Levels(fs, t.thresholds)
  /\ Labelled(fs, e.labels)
  /\ Inside(fs, Min2(x0, x1), Max2(x0, x1), Min2(y0, y1), Max2(y0, y1))
  /\ Enclosing(w, t.h, d, fs, t.thresholds, {<<c[1], c[2]>> : c \in {e.cells[k] : k \in 1..Len(e.cells)}},
               LAMBDA i : x0 + ((x1 - x0) * (2 * i - 1)) \div (2 * w), LAMBDA j : y0 + ((y1 - y0) * (2 * j - 1)) \div (2 * t.h))

\* A spectrum by period and direction (1/100 of a second, of a degree): each   *
\* point between those of the rows and columns it lies between, the directions *
\* turned by the convention, going the short way from one to the next          *
Turned(conv, d) == CASE conv = "From" -> d % 36000 [] conv = "Towards" -> (d + 18000) % 36000 [] conv = "Met" -> (63000 - d) % 36000
\* y at most `reach` on from d, in the given sense (a unit either way)
OnFrom(y, d, reach, sense) == (sense * (y - d) + 1) % 36000 <= reach + 2
Low(c) == Max2(0, (c - 101) \div 100)
High(c, n) == Min2(n - 1, (c + 100) \div 100)
Sea(e, t) ==
  LET fs == e.features gs == e.cells nk == Len(t.periods) nd == Len(t.dirs) IN
  /\ Levels(fs, [k \in 1..Len(fs) |-> fs[k].threshold])
  /\ Len(fs) = 10 /\ Len(gs) = 10 /\ Near(fs[10].threshold, 1000, 1)
  /\ \A k \in 1..10 : /\ Len(fs[k].rings) = Len(gs[k].rings)
       /\ \A r \in 1..Len(fs[k].rings) : /\ Len(fs[k].rings[r]) = Len(gs[k].rings[r])
            /\ \A q \in 1..Len(fs[k].rings[r]) :
                 LET p == fs[k].rings[r][q] c == gs[k].rings[r][q]
                     kl == Min2(Low(c[1]), nk - 1) kh == Max2(kl, High(c[1], nk))
                     dl == Min2(Low(c[2]), nd - 1) dh == Max2(dl, High(c[2], nd))
                 IN /\ p[1] <= t.periods[kl + 1] + 1 /\ p[1] >= t.periods[kh + 1] - 1
                    /\ p[2] >= 0 /\ p[2] <= 36000
                    /\ OnFrom(p[2], Turned(t.conv, t.dirs[dl + 1]), (dh - dl) * t.gap, IF t.conv = "Met" THEN -t.sense ELSE t.sense)

OK(e, t, b) ==
  CASE e.op = "grid" -> Grid(e, t)
    [] e.op = "moved" -> Levels(e.features, t.thresholds) /\ Moved(b, e.features, e.by)
    [] e.op = "asis" -> Levels(e.features, t.thresholds) /\ Labelled(e.features, e.labels) /\ Same(b, e.features)
    [] e.op = "refused" -> e.got = "error"
    [] e.op = "lnglat" -> Spread(e, t, Width(t), Data(t))
    [] e.op = "sea" -> Sea(e, t)
    [] OTHER -> FALSE
Held(e) == IF e.op = "grid" THEN e.features ELSE base

Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init, base) = TRUE /\ l' = l + 1 /\ base' = Held(Ev) /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init, base) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l, base>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE /\ base = <<>>
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, base, bad>>
=============================================================================

------------------------------ MODULE Summaries ------------------------------
(* What a summary holds, in the fixed-point numbers the drivers record: t is    *)
(* the spectrum with the partition lab (1..parts, 0 none) of each of its bins.  *)
EXTENDS Summary, TraceKit
Tol(x, cells) == 30 * cells + x \div 2000
\* One swell against the bins it stands for
SwellFits(t, b, m, w, rows) ==
  \A h \in {Height2(t.f, b, rows)} :
    /\ Near(w.h2, h, Tol(h, 10))
    /\ \E k \in PeakBins(rows) : Near(w.tp * t.f[k], 10000000, t.f[k])
    /\ w.dir \in 0..360
    /\ h > 0 => \A v \in {Vector(t.f, t.ds, b, t.e, m, t.conv, h)} : DirFits(v, w.dir)
\* The top, in 1/1000, of the parabola through a peak and its neighbours; at the ends there is none
Vertex(r, k) == IF k = 1 \/ k = Len(r) THEN 1000 * r[k]
                ELSE LET d == r[k - 1] - r[k + 1]  c == 2 * r[k] - r[k - 1] - r[k + 1] IN
                     1000 * r[k] + (IF c = 0 THEN 0 ELSE (125 * d * d) \div c)
In(t, p) == TLCEval([c \in 1..Len(t.e) |-> p = 0 \/ t.lab[c] = p])
SummaryFits(t, e) ==
  LET C == e.components  n == Len(e.components)  ids == {C[j].id : j \in 1..n} IN
  \A b \in {Bands(t.f)} :
  /\ SwellFits(t, b, In(t, 0), e.summary, Rows(t.f, t.e, In(t, 0)))
  /\ Cardinality(ids) = n /\ ids \subseteq 1..t.parts
  /\ \A j \in 1..n : /\ \A m \in {In(t, C[j].id)} : SwellFits(t, b, m, C[j], Rows(t.f, t.e, m))
                     /\ C[j].hs >= 1000 /\ C[j].energy >= 0
  /\ \A p \in 1..t.parts \ ids :
       \A r \in {Rows(t.f, t.e, In(t, p))} : \A h \in {Height2(t.f, b, r)} : h <= t.limit + Tol(h, 10)
  /\ \A j \in 1..(n - 1) : C[j].energy >= C[j + 1].energy
  \* the total is the sum of the components
  /\ Len(e.total) = 1 /\ Near(e.total[1], SumTo([j \in 1..n |-> C[j].energy], n), 2 + n)
  \* energy follows from height and period
  /\ \A j \in 1..n : C[j].units = "Meters Seconds Some(KiloJoules)"
  \* the density at the peak is read off a parabola through it and its neighbours
  /\ \A j \in 1..n : \A r \in {Rows(t.f, t.e, In(t, C[j].id))} : \E k \in PeakBins(r) : Near(C[j].sd, Vertex(r, k), 3)
  /\ \A j \in 1..n : C[j].energy = 0 \/ Near(C[j].ratio, 1970080, 500)
=============================================================================

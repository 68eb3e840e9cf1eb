---------------------------- MODULE SpectralGrid ----------------------------
(* A directional spectrum: f ascending frequencies, ds directions as listed    *)
(* (raw, ascending), e the energies; bin k of direction i is at                *)
(* k + (i - 1) * Len(f).                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

At(f, e, k, i) == e[k + (i - 1) * Len(f)]
Index(f, k, i) == k + (i - 1) * Len(f)
\* The width of each bin of an axis: the step from the bin before; the first has the second's
Width(xs, k) == IF Len(xs) = 1 THEN 0 ELSE IF k = 1 THEN xs[2] - xs[1] ELSE xs[k] - xs[k - 1]
\* From-direction, in degrees, of a raw direction
FromDir(conv, d) == CASE conv = "From" -> d % 360
                      [] conv = "Towards" -> (d + 180) % 360
                      [] conv = "Met" -> (((270 - d) % 360) + 360) % 360

\* Sum of g(j) over 1..n
RECURSIVE Sum(_, _)
Sum(g, n) == IF n = 0 THEN 0 ELSE g[n] + Sum(g, n - 1)
OverDirs(f, ds, e, k) == Sum(TLCEval([i \in 1..Len(ds) |-> Width(ds, i) * At(f, e, k, i)]), Len(ds))
OverFreqs(f, ds, e, i) == Sum(TLCEval([k \in 1..Len(f) |-> Width(f, k) * At(f, e, k, i)]), Len(f))
Pow(x, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN x ELSE x * x
FreqMoment(f, ds, e, i, n) == Sum(TLCEval([k \in 1..Len(f) |-> Pow(f[k], n) * Width(f, k) * At(f, e, k, i)]), Len(f))
Total(f, ds, e) == Sum(TLCEval([k \in 1..Len(f) |-> Width(f, k) * OverDirs(f, ds, e, k)]), Len(f))
TotalD(f, ds, e) == Sum(TLCEval([i \in 1..Len(ds) |-> Width(ds, i) * OverFreqs(f, ds, e, i)]), Len(ds))

---------------------------------------------------------------------------
(* Point queries.                                                             *)
Round(a, b, turn) == (((a - b) % turn) + turn) % turn      \* from b on to a
\* Pairs <<lower, upper>> that enclose x; at a node either side of it will do
FreqPairs(f, x) ==
  {<<k, m>> \in (1..Len(f)) \X (1..Len(f)) :
     /\ f[k] <= x /\ x <= f[m]
     /\ m = k + 1 \/ (m = k /\ f[k] = x /\ k = Len(f))}
DirPairs(ds, d, turn) ==
  LET n == Len(ds)
      Next(i) == CHOOSE j \in 1..n : \A k \in 1..n :
                   LET g(q) == IF Round(ds[q], ds[i], turn) = 0 THEN turn ELSE Round(ds[q], ds[i], turn) IN g(j) <= g(k)
      Gap(i) == IF n = 1 THEN turn ELSE Round(ds[Next(i)], ds[i], turn)
  IN {<<i, Next(i)>> : i \in {q \in 1..n : Round(d, ds[q], turn) <= Gap(q)}}
\* Bilinear blend times the area of the cell <<value, area>>
Blend(f, ds, e, p, q, x, d, turn) ==
  LET W == IF p[1] = p[2] THEN 1 ELSE f[p[2]] - f[p[1]]
      u == IF p[1] = p[2] THEN 0 ELSE x - f[p[1]]
      H == IF q[1] = q[2] THEN 1 ELSE Round(ds[q[2]], ds[q[1]], turn)
      w == IF q[1] = q[2] THEN 0 ELSE Round(d, ds[q[1]], turn)
  IN <<At(f, e, p[1], q[1]) * (W - u) * (H - w) + At(f, e, p[2], q[1]) * u * (H - w)
       + At(f, e, p[1], q[2]) * (W - u) * w + At(f, e, p[2], q[2]) * u * w, W * H>>
Corners(f, e, p, q) == {At(f, e, a, b) : a \in {p[1], p[2]}, b \in {q[1], q[2]}}
LowOf(S) == CHOOSE a \in S : \A b \in S : a <= b
HighOf(S) == CHOOSE a \in S : \A b \in S : a >= b
=============================================================================

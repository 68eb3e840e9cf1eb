------------------------------- MODULE Summary -------------------------------
(* Summarising a partitioned spectrum: f in 1/10000 Hz ascending (3 or more),  *)
(* ds raw whole degrees, evenly spaced; e energies; lab the partition of each  *)
(* bin, bin k of direction i at k + (i - 1) * Len(f).                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Trig

\* The bandwidth a frequency stands for, in 1/1000000 Hz; the last one with the tail above it,
\* which falls off with the fifth power of the frequency
Band(f, k) ==
  LET n == Len(f) IN
  CASE k = 1 -> 50 * (f[2] - f[1])
    [] k = n -> (50 * (f[n] - f[n - 1])) + 25 * f[n]
    [] OTHER -> (50 * (f[k] - f[k - 1]) * (f[k] + f[k - 1])) \div f[k - 1]
Bands(f) == TLCEval([k \in 1..Len(f) |-> Band(f, k)])
Bin(f, c) == ((c - 1) % Len(f)) + 1
Dir(f, c) == ((c - 1) \div Len(f)) + 1
\* One strict value out of a set built from one
One(S) == CHOOSE x \in S : TRUE
RECURSIVE SumSet(_, _)
SumSet(g, S) == IF S = {} THEN 0 ELSE One({g[x] + SumSet(g, S \ {x}) : x \in {CHOOSE y \in S : TRUE}})
RECURSIVE SumTo(_, _)
SumTo(g, n) == IF n = 0 THEN 0 ELSE g[n] + SumTo(g, n - 1)
\* Energy over all directions of each frequency; the bins counted are In
Row(f, e, In, k) == LET nth == Len(e) \div Len(f) IN
  SumTo(TLCEval([i \in 1..nth |-> LET c == k + (i - 1) * Len(f) IN IF In[c] THEN e[c] ELSE 0]), nth)
Rows(f, e, In) == TLCEval([k \in 1..Len(f) |-> Row(f, e, In, k)])
\* The height squared, over 16 bin widths: in 1/1000000
Height2(f, b, rows) == SumTo(TLCEval([k \in 1..Len(f) |-> b[k] * rows[k]]), Len(f))
\* The frequencies that may be the peak
PeakBins(rows) == {k \in DOMAIN rows : \A m \in DOMAIN rows : rows[k] >= rows[m]}

FromOf(conv, d) == CASE conv = "From" -> d [] conv = "Towards" -> d + 180 [] OTHER -> 270 - d
\* Where the energy comes from, as a vector, each bin weighed to at most 20000 in all
Weight(f, b, e, In, c, q) == IF In[c] THEN (b[Bin(f, c)] * e[c]) \div q ELSE 0
Vector(f, ds, b, e, In, conv, total) ==
  LET q == (total \div 20000) + 1
      n == Len(e)
      from(c) == FromOf(conv, ds[Dir(f, c)])
      w == TLCEval([c \in 1..n |-> Weight(f, b, e, In, c, q)])
  IN <<SumTo(TLCEval([c \in 1..n |-> (w[c] * Cos(from(c))) \div 100]), n),
       SumTo(TLCEval([c \in 1..n |-> (w[c] * Sin(from(c))) \div 100]), n), SumTo(w, n) * 100>>
AbsS(x) == IF x < 0 THEN 0 - x ELSE x
\* a whole degree fits the vector to 2.5 degrees, unless it nearly cancels out
DirFits(v, deg) ==
  LET along == (v[1] \div 100) * (Cos(deg) \div 10) + (v[2] \div 100) * (Sin(deg) \div 10)
      across == (v[2] \div 100) * (Cos(deg) \div 10) - (v[1] \div 100) * (Sin(deg) \div 10)
  IN \/ AbsS(v[1]) + AbsS(v[2]) < v[3] \div 10
     \/ along > 0 /\ 23 * AbsS(across) <= along + 2000
=============================================================================

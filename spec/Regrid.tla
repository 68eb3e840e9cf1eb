------------------------------- MODULE Regrid -------------------------------
(* Regridding: f ascending, ds the from-directions in the order they are       *)
(* listed (any order, distinct, within a turn), e the energy of bin k of       *)
(* direction i at k + (i - 1) * Len(f).                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Turned(a, b, turn) == (((a - b) % turn) + turn) % turn
\* The bins that enclose frequency x within the axis; none below it; the last above it
FreqBins(f, x) ==
  LET k == Cardinality({i \in 1..Len(f) : f[i] <= x}) IN
  IF k = 0 THEN {} ELSE IF f[k] = x \/ k = Len(f) THEN {k} ELSE {k, k + 1}
\* The directions that enclose d: the nearest behind it and the nearest ahead of it
DirBins(ds, d, turn) ==
  LET I == DOMAIN ds
      behind == {i \in I : \A j \in I : Turned(d, ds[i], turn) <= Turned(d, ds[j], turn)}
      ahead == {i \in I : \A j \in I : Turned(ds[i], d, turn) <= Turned(ds[j], d, turn)}
  IN IF \E i \in I : Turned(d, ds[i], turn) = 0 THEN behind ELSE behind \union ahead
Around4(f, ds, e, x, d, turn) == {e[k + (i - 1) * Len(f)] : k \in FreqBins(f, x), i \in DirBins(ds, d, turn)}
Low(S) == CHOOSE a \in S : \A b \in S : a <= b
High(S) == CHOOSE a \in S : \A b \in S : a >= b
\* v (in 1/fine) is fit for (x, d)
CellFits(f, ds, e, x, d, turn, v, fine, tol) ==
  IF x < f[1] THEN v = 0
  ELSE \A S \in {Around4(f, ds, e, x, d, turn)} :
         v >= Low(S) * fine - tol /\ v <= High(S) * fine + tol
=============================================================================

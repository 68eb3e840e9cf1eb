------------------------------- MODULE Contour -------------------------------
(* Contours of a grid: w columns by h rows of values, cell (i, j) of data      *)
(* d[i + (j - 1) * w] centred at (i - 1/2, j - 1/2); Missing cells are below    *)
(* every threshold. A contour is a set of polygons, each its outer ring and     *)
(* its holes, in 1/100 of a cell.                                              *)
EXTENDS Integers, Sequences, FiniteSets
Missing == -1000000
CellAt(w, d, i, j) == d[i + (j - 1) * w]
Above(v, t) == v # Missing /\ v >= t
Region(w, h, d, t) == {c \in (1..w) \X (1..h) : Above(CellAt(w, d, c[1], c[2]), t)}

\* Whether the edge from a to b crosses the ray from p to the right
Crosses(a, b, p) ==
  /\ (a[2] > p[2]) # (b[2] > p[2])
  /\ LET dy == b[2] - a[2]
         lhs == (p[1] - a[1]) * dy
         rhs == (b[1] - a[1]) * (p[2] - a[2])
     IN IF dy > 0 THEN lhs < rhs ELSE lhs > rhs
Crossings(ring, p) == Cardinality({k \in 1..(Len(ring) - 1) : Crosses(ring[k], ring[k + 1], p)})
RECURSIVE Total(_, _)
Total(rings, p) == IF rings = <<>> THEN 0 ELSE Crossings(Head(rings), p) + Total(Tail(rings), p)
\* rings: those of all the polygons of one contour
Encloses(rings, p) == Total(rings, p) % 2 = 1
Closed(ring) == Len(ring) >= 4 /\ ring[1] = ring[Len(ring)]
=============================================================================

------------------------------ MODULE GridField ------------------------------
(* A field given at the crossings of evenly spaced latitudes and longitudes,   *)
(* and what it is at a place. Positions in 1/768 degree (any unit dividing the *)
(* circle would do: Full of them come around), a grid is                       *)
(* [lat0, dlat, n, lng0, dlng, m, vals], dlat and dlng perhaps negative, its    *)
(* rows one after the other, its span less than all around.                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Full, None

Mag(x) == IF x < 0 THEN 0 - x ELSE x
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
East(a, b) == (b - a) % Full
\* The gap between two meridians, the short way
Gap(a, b) == Least({East(a, b), East(b, a)})
Lat(g, r) == g.lat0 + r * g.dlat
Lng(g, c) == g.lng0 + c * g.dlng
Rows_(g) == 0..(g.n - 1)
Cols_(g) == 0..(g.m - 1)
At(g, r, c) == g.vals[1 + c + r * g.m]
InLat(g, lat) == (Lat(g, 0) <= lat /\ lat <= Lat(g, g.n - 1)) \/ (Lat(g, g.n - 1) <= lat /\ lat <= Lat(g, 0))
\* From the first column on
On(g, lng) == IF g.dlng > 0 THEN East(g.lng0, lng) ELSE East(lng, g.lng0)
Covers(g, lat, lng) == InLat(g, lat) /\ On(g, lng) <= (g.m - 1) * Mag(g.dlng)

\* ---- around a place: the values of all crossings no further than the tolerance
\* in latitude and longitude, row by row, missing ones left out
RECURSIVE Collect(_, _, _, _, _, _)
Collect(g, lat, lng, tol, k, acc) ==
  IF k = g.n * g.m THEN acc
  ELSE Collect(g, lat, lng, tol, k + 1,
        IF /\ Mag(Lat(g, k \div g.m) - lat) <= tol /\ Gap(Lng(g, k % g.m), lng) <= tol
           /\ g.vals[k + 1] # None
        THEN Append(acc, g.vals[k + 1]) ELSE acc)
Around(g, lat, lng, tol) == Collect(g, lat, lng, tol, 0, <<>>)

\* ---- at the nearest crossing
NearRows(g, lat) == {r \in Rows_(g) : \A q \in Rows_(g) : Mag(Lat(g, r) - lat) <= Mag(Lat(g, q) - lat)}
NearCols(g, lng) == {c \in Cols_(g) : \A q \in Cols_(g) : Gap(Lng(g, c), lng) <= Gap(Lng(g, q), lng)}
Nearest(g, lat, lng) == {At(g, r, c) : r \in NearRows(g, lat), c \in NearCols(g, lng)}

\* ---- between the four crossings around it, in proportion: the row and column
\* before it and how far on it is from there, in 1/16
Step16(off, d) == (16 * off) \div d
RowPos(g, lat) == IF g.n = 1 THEN <<0, 0>> ELSE LET o == Mag(lat - g.lat0) d == Mag(g.dlat) IN <<o \div d, Step16(o % d, d)>>
ColPos(g, lng) == IF g.m = 1 THEN <<0, 0>> ELSE LET o == On(g, lng) d == Mag(g.dlng) IN <<o \div d, Step16(o % d, d)>>
\* The corners that count and their weights, in 1/256
Corners(g, lat, lng) ==
  LET p == RowPos(g, lat) q == ColPos(g, lng) IN
  {w \in {<<p[1] + a, q[1] + b, (IF a = 1 THEN p[2] ELSE 16 - p[2]) * (IF b = 1 THEN q[2] ELSE 16 - q[2])>> : a \in {0, 1}, b \in {0, 1}} : w[3] > 0}
RECURSIVE Sum(_, _)
Sum(g, ws) == IF ws = {} THEN 0 ELSE LET w == CHOOSE x \in ws : TRUE IN w[3] * At(g, w[1], w[2]) + Sum(g, ws \ {w})
Blank(g, lat, lng) == \E w \in Corners(g, lat, lng) : At(g, w[1], w[2]) = None
\* 256 times the value
Between256(g, lat, lng) == Sum(g, Corners(g, lat, lng))
=============================================================================

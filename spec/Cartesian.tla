------------------------------ MODULE Cartesian ------------------------------
(* A polar spectrum drawn as a square image of n by n pixels: a bin lies in    *)
(* its from-direction, north up, east right, as far from the middle as its     *)
(* scaled period; the limit period is half the image away. Positions in 1/100  *)
(* of a pixel. Periods come doubled, so that limits may lie halfway.           *)
EXTENDS SpectralGrid, Trig

\* p ^ (half / 2); half = 1 only for squares
Root(p) == CHOOSE r \in 0..200 : r * r = p
Scaled(p, half) == CASE half = 1 -> Root(p) [] half = 2 -> p [] half = 4 -> p * p
Within(p, limit) == p <= limit
Far(n, p, limit, half) == (100 * (n \div 2) * Scaled(p, half)) \div Scaled(limit, half)
Middle(n) == 100 * (n \div 2)
Place(n, p, d, limit, half) == LET r == Far(n, p, limit, half) IN
  <<Middle(n) + (r * Sin(d)) \div 10000, Middle(n) - (r * Cos(d)) \div 10000>>
\* Pixel j (from 1): across, then down
Pixel(n, j) == <<100 * ((j - 1) % n), 100 * ((j - 1) \div n)>>
Sq(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
Mod(x) == IF x < 0 THEN -x ELSE x
Leg(a, b) == Mod(a[1] - b[1]) + Mod(a[2] - b[2])
\* Where each bin within the limit lies: <<index, place>>
Bins(n, ps, ds, limit, half) ==
  {<<k + (i - 1) * Len(ps), Place(n, ps[k], ds[i], limit, half)>> : k \in {q \in 1..Len(ps) : Within(ps[q], limit)}, i \in 1..Len(ds)}
\* No bin is nearer, but for the rounding (four hundredths of a pixel)
Slack == 4
Nearest(bins, at, here) == \A o \in bins : Sq(here, at) <= Sq(o[2], at) + Slack * (2 * Leg(o[2], at) + Slack)
=============================================================================

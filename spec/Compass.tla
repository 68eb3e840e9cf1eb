------------------------------- MODULE Compass -------------------------------
(* The compass: whole degrees, sixteen points, turning, conventions.          *)
EXTENDS Integers, Sequences

Points == <<"n", "nne", "ne", "ene", "e", "ese", "se", "sse", "s", "ssw", "sw", "wsw", "w", "wnw", "nw", "nnw">>
\* Point k is the sector of 22.5 degrees around 22.5 * k: in quarter degrees, 90 around 90 * k.
\* A whole degree is never on a sector's edge (11.25, 33.75, ...).
Sector(deg) == ((4 * deg + 45) \div 90) % 16
PointOf(deg) == Points[Sector(deg) + 1]
Turn(deg) == (deg + 180) % 360
Apart(a, b) == LET d == (IF a > b THEN a - b ELSE b - a) % 360 IN IF d > 180 THEN 360 - d ELSE d
Opposite(a, b) == Apart(a, b) >= 170
\* To the from convention, in any whole fraction of a degree, `full` to the circle
FromTowards(v, full) == (v + full \div 2) % full
FromMet(v, full) == ((3 * full) \div 4 - v) % full
SameBearing(a, b, full) == (a - b) % full = 0
=============================================================================

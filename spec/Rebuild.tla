------------------------------- MODULE Rebuild -------------------------------
(* A directional spectrum from what a buoy measures at each frequency: its     *)
(* energy, the mean and the principal direction the waves come from (whole     *)
(* degrees) and how much they gather there, r1 and r2 (in 1/100). Per unit of  *)
(* energy and times pi, in 1/10000, the share of the direction d is            *)
(*   1/2 + r1 cos(d - a1) + r2 cos(2 (d - a2))                                 *)
(* or nothing where that is less than nothing.                                 *)
EXTENDS Trig
Sum3(r1, a1, r2, a2, d) == 500000 + r1 * Cos(d - a1) + r2 * Cos(2 * (d - a2))
Wanted(c, d) == Sum3(c.r1, c.a1, c.r2, c.a2, d)
Share(c, d) == LET x == Wanted(c, d) IN IF x < 0 THEN 0 ELSE x \div 100

\* What files have in place of a value: energies in 1/1000, r in 1/100
NoEnergy == 999900
NoDirection == 999
NoSpread == 99900
Absent(c) == c.e = NoEnergy \/ c.a1 = NoDirection \/ c.a2 = NoDirection \/ c.r1 = NoSpread \/ c.r2 = NoSpread
=============================================================================

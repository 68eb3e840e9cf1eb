-------------------------------- MODULE Globe --------------------------------
(* Positions in eighths of a degree. Meridians are residues of the circle;     *)
(* a box runs eastward from its west to its east longitude, each in either     *)
(* form, and around the globe when they are a full circle apart.               *)
EXTENDS Integers, Sequences, Trig
Whole(full, x) == ((x % full) + full) % full
Within(full, w, e, x) == e - w >= full \/ Whole(full, x - w) <= Whole(full, e - w)

Circle == 2880
\* Thousands of the radius that 1/8 degree make: pi/1440 = 0.00218166
Radius(u) == IF u = "Metric" THEN 6371 ELSE 3956
\* Arc of t eighths, in tenths of the unit
Arc(t, u) == (((Radius(u) * t) \div 100) * 21817) \div 10000
Half(u) == Arc(1440, u)
Close(got, want) == got - want <= 4 + (want \div 1000) /\ want - got <= 4 + (want \div 1000)
\* Sine of x hundredths of a degree
Fine(x) == LET d == x \div 100 IN Sin(d) + ((Sin(d + 1) - Sin(d)) * (x - d * 100)) \div 100
Sq(x) == x * x
\* Haversine formula between places in whole degrees whose differences are even, of the angle that the distance subtends
Haversine(a, b, got, u) ==
  \A s \in {Fine((got * 2865) \div (Radius(u) * 10))} :
  \A p \in {Sin((a[1] - b[1]) \div 2)} : \A q \in {Sin((a[2] - b[2]) \div 2)} :
  \A want \in {Sq(p) + ((Cos(a[1]) * Cos(b[1])) \div 10000) * (Sq(q) \div 10000)} :
  \A tol \in {10 * s + 4 * (IF p < 0 THEN -p ELSE p) + 4 * (IF q < 0 THEN -q ELSE q) + 20000} :
     s * s - want <= tol /\ want - s * s <= tol
=============================================================================

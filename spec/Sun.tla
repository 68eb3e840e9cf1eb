--------------------------------- MODULE Sun ---------------------------------
(* Where the sun stands: the sunrise equation, in 1/100 of a degree. Days are  *)
(* counted from 1 January 2000; longitudes are positive eastward.              *)
EXTENDS Trig
Turn == 36000
\* Sine of 1/100 of a degree, in 1/10000: straight between whole degrees
SinC(a) == LET m == ((a % Turn) + Turn) % Turn  d == m \div 100
           IN Sin(d) + ((Sin(d + 1) - Sin(d)) * (m % 100)) \div 100
CosC(a) == SinC(a + 9000)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
\* From a sine to the cosine that is not negative
Other(x) == Root(100000000 - x * x, 0, 10001)
\* Mean anomaly at local noon, and with the equation of the centre the ecliptic longitude
Anomaly(day, lng) == (35753 + (9856 * day) \div 100 - (lng * 99) \div 36000) % Turn
Centre(m) == (191 * SinC(m)) \div 10000 + (2 * SinC(2 * m)) \div 10000
Ecliptic(day, lng) == LET m == Anomaly(day, lng) IN (m + Centre(m) + 10293 + (32 * day) \div 36525 + Turn \div 2) % Turn
SinDecl(day, lng) == (3978 * SinC(Ecliptic(day, lng))) \div 10000
\* Local noon is so many seconds after twelve by the mean sun
Late(day, lng) == (458 * SinC(Anomaly(day, lng)) - 596 * SinC(2 * Ecliptic(day, lng))) \div 10000
\* Noon in seconds of the (UTC) day
Noon(day, lng) == 43200 - (lng * 12) \div 5 + Late(day, lng)
\* The sun's upper edge on the horizon, half a day's length before and after noon (in degrees of turning, H):
\* cos H cos lat cos decl = - sin 50' - sin lat sin decl
Level(lat, sd) == -145 - (SinC(lat) * sd) \div 10000
Reach(lat, sd) == (CosC(lat) * Other(sd)) \div 10000
Rises(lat, sd) == LET r == Reach(lat, sd) v == Level(lat, sd) IN v <= r /\ v >= -r
\* Too near to the edge of polar day or night to tell
Edge(lat, sd) == LET r == Reach(lat, sd) v == Level(lat, sd) IN (v - r) \in -15..15 \/ (v + r) \in -15..15
\* Half a day of so many seconds
Fits(lat, sd, half) == LET h == (half * 5) \div 12 IN ((CosC(h) * Reach(lat, sd)) \div 10000) - Level(lat, sd) \in -25..25
=============================================================================

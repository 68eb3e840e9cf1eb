-------------------------------- MODULE Surf --------------------------------
(* Waves on a beach and wind from a vector, by whole degrees.                  *)
EXTENDS Trig
\* How far from straight on: both are where the waves come from, and the beach faces
Incidence(dir, beach) == LET d == ((((dir - beach) % 360) + 540) % 360) - 180 IN IF d < 0 THEN -d ELSE d
Breaks(dir, beach) == Incidence(dir, beach) <= 90
\* Refraction over depth where waves are as fast as t (1/100000) of deep water ones (Snell); 1/10000
Bent(angle, t) == (Sin(angle) * (t \div 10)) \div 10000
\* exp(-x), x in 1/10000, in 1/10000; by tenths (in 1/100000) and what is left over
RECURSIVE Tenths(_)
Tenths(k) == IF k = 0 THEN 100000 ELSE LET t == Tenths(k - 1) IN (t * 9048 + ((t * 37) \div 100)) \div 10000
Decay(x) == IF x >= 120000 THEN 0
            ELSE LET r == x % 1000
                     part == 100000 - 10 * r + ((r * r) \div 2000) - ((r * r * r) \div 60000000)
                 IN ((Tenths(x \div 1000) \div 10) * (part \div 10)) \div 10000
Square(x) == (x * x) \div 10000
\* cos^2 of the angle in deep water over that of the angle there: the fourth power of the coefficient
Spread4(angle, t) == (Square(Cos(angle)) * 10000) \div (10000 - Square(Bent(angle, t)))
=============================================================================

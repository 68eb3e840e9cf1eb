------------------------------ MODULE MCCompass ------------------------------
(* Design model: a heading that is turned, read off and converted; every      *)
(* whole degree.                                                              *)
EXTENDS Compass, FiniteSets
VARIABLES deg, was, turns
Init == deg \in 0..360 /\ was = deg /\ turns = 0
Reverse == turns < 4 /\ deg' = Turn(deg) /\ turns' = turns + 1 /\ UNCHANGED was
Spec == Init /\ [][Reverse]_<<deg, was, turns>>
\* The sector's middle is nearer than any other's
Nearest == LET k == Sector(deg) d(m) == LET x == (4 * deg - 90 * m) % 1440 IN IF x > 720 THEN 1440 - x ELSE x
           IN \A m \in 0..15 : m # k => d(k) < d(m)
Restored == turns % 2 = 0 => SameBearing(deg, was, 360)
Lands == turns > 0 => deg \in 0..359
Reversed == turns % 2 = 1 => Opposite(deg, was) /\ Apart(deg, was) = 180
Symmetric == \A o \in 0..360 : Opposite(deg, o) <=> Opposite(o, deg)
Conventions == /\ FromTowards(deg, 360) = Turn(deg)
               /\ SameBearing(FromMet(FromMet(deg, 360), 360), deg, 360)
               /\ FromMet(0, 360) = 270 /\ FromMet(90, 360) = 180
=============================================================================

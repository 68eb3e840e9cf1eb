------------------------------- MODULE MCSurf -------------------------------
(* Design model: the coast and the waves on it are turned together, degree by *)
(* degree, once around; nothing about them changes.                           *)
EXTENDS Surf, TLC, TLCExt, Json
CONSTANTS Step, Slows
VARIABLES dir, beach, turned
vars == <<dir, beach, turned>>
Directions == {Step * k : k \in 0..(359 \div Step)}
Init == /\ dir \in Directions /\ beach \in {0, Step} /\ turned = 0
        /\ PrintT("SCEN " \o ToJson([dir |-> dir, beach |-> beach]))
Turn == /\ turned < 360 /\ turned' = turned + 1 /\ dir' = (dir + 1) % 360 /\ beach' = (beach + 1) % 360
Spec == Init /\ [][Turn]_vars
Range == Incidence(dir, beach) \in 0..180
Kept == [][Incidence(dir', beach') = Incidence(dir, beach)]_vars
Mirrored == Incidence(2 * beach - dir, beach) = Incidence(dir, beach)
Whole == Incidence(dir + 360, beach) = Incidence(dir, beach) /\ Incidence(dir, beach - 360) = Incidence(dir, beach)
Behind == Breaks(dir, beach) = (Cos(dir - beach) >= 0)
\* Slower waves come in straighter, and lose some of their height
Straighter == Breaks(dir, beach) => \A t, u \in Slows : t < u =>
   LET a == Incidence(dir, beach) IN Bent(a, t) <= Bent(a, u) /\ Spread4(a, t) <= Spread4(a, u) /\ Spread4(a, t) <= 10000
=============================================================================

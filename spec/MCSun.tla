-------------------------------- MODULE MCSun --------------------------------
(* Design model: the sun over a place, day after day.                         *)
EXTENDS Sun, TLC, TLCExt, Json
CONSTANTS Lats, Lngs, First, Days
Places == {-8900, -7000, -6500, -4000, -1000, 0, 2340, 4160, 6000, 6500, 6900, 8000}
Latitudes == {-8900, -8000, -7000, -6650, -6500, -6000, -5000, -4000, -2000, -1000, 0, 500, 2340, 4160, 5500, 6000, 6500, 6700, 6900, 8000, 8900}
Meridians == {-18000, -7150, 0, 13500}
VARIABLES lat, lng, day
vars == <<lat, lng, day>>
Init == lat \in Lats /\ lng \in Lngs /\ day = First
Dawn == /\ day < First + Days /\ day' = day + 1 /\ UNCHANGED <<lat, lng>>
        /\ IF day % 23 = 0 THEN PrintT("SCEN " \o ToJson([lat |-> lat, lng |-> lng, day |-> day])) ELSE TRUE
Spec == Init /\ [][Dawn]_vars
SD == SinDecl(day, lng)
\* The sun keeps within the tropics and a quarter of an hour or so of twelve
Tropics == SD \in -3980..3980
Punctual == Late(day, lng) \in -1000..1000
\* Places between the polar circles always have a day and a night; on the equator of twelve hours
Daily == lat \in -6500..6500 => Rises(lat, SD)
Equator == lat = 0 => Fits(lat, SD, 21600 + 210)
\* North and south have one day and one night between them, but for the sun's width and the air
Mirror == Level(lat, SD) + Level(-lat, SD) \in -292..-288
\* Polar night on one side is polar day on the other
Polar == ~Rises(lat, SD) /\ ~Edge(lat, SD) /\ ~Edge(-lat, SD) /\ Level(lat, SD) > 0 => Level(-lat, SD) < 0
\* East is earlier, four minutes a degree
East == Noon(day, lng) - Noon(day, lng + 100) \in 238..242
\* The days grow where they do: from one day to the next the sun moves by less than half a degree
Gradual == [][SinDecl(day', lng) - SinDecl(day, lng) \in -75..75]_vars
=============================================================================

---------------------------- MODULE MCDispersion ----------------------------
(* Design model: the dispersion relation is solved by halving, depth after     *)
(* depth, for one period.                                                     *)
EXTENDS Dispersion, TLC, TLCExt, Json
CONSTANTS Periods, Depths
Sample == <<1, 2, 3, 5, 8, 12, 20, 30, 50, 80, 150, 300, 1000, 5000>>
Dense == [k \in 1..200 |-> IF k <= 100 THEN k ELSE 50 * (k - 98)]
VARIABLES tt, lo, hi, found
vars == <<tt, lo, hi, found>>
Far == 6500
Want(h) == Sight(tt, h)
Now == Depths[Len(found) + 1]
Init == /\ tt \in Periods /\ lo = 0 /\ hi = Far /\ found = <<>>
        /\ PrintT("SCEN " \o ToJson([period |-> tt, depths |-> Depths]))
More == Len(found) < Len(Depths)
Beyond == More /\ Want(Now) > Rise(Far) /\ found' = Append(found, Want(Now)) /\ UNCHANGED <<tt, lo, hi>>
Halve == /\ More /\ Want(Now) <= Rise(Far) /\ hi - lo > 1
         /\ LET m == (lo + hi) \div 2 IN IF Rise(m) <= Want(Now) THEN lo' = m /\ UNCHANGED hi ELSE hi' = m /\ UNCHANGED lo
         /\ UNCHANGED <<tt, found>>
Take == /\ More /\ Want(Now) <= Rise(Far) /\ hi - lo <= 1
        /\ found' = Append(found, lo) /\ lo' = 0 /\ hi' = Far /\ UNCHANGED tt
Spec == Init /\ [][Beyond \/ Halve \/ Take]_vars /\ WF_vars(Beyond \/ Halve \/ Take)
Bracket == More /\ Want(Now) <= Rise(Far) => Rise(lo) <= Want(Now) /\ Want(Now) <= Rise(hi)
\* Depth and wavelength: in radians it grows with depth; wavelengths h / x too, and never more than in deep water
Deeper == \A i, j \in 1..Len(found) : i < j => found[i] < found[j]
Length(i) == (62832 * Depths[i]) \div (found[i] + 1)
Longer == \A i, j \in 1..Len(found) : i < j => (Length(i) * 98) \div 100 <= Length(j) + 1
\* L <= g T^2 / 2 pi, here 1/10 m
Bounded == \A i \in 1..Len(found) : Length(i) <= (Deep * ((tt * tt) \div 10)) \div 10000 + 2
Grouped == \A i \in 1..Len(found) : Group(found[i]) \in 5000..10100
Solved == <>(Len(found) = Len(Depths))
=============================================================================

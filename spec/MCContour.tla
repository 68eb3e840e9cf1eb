------------------------------ MODULE MCContour ------------------------------
(* Design model: any small grid, contoured level by level upwards.            *)
EXTENDS Contour, TLC, TLCExt, Json
CONSTANTS W, H, Values, Levels
VARIABLES data, k, regions
vars == <<data, k, regions>>
Init == /\ data \in [1..(W * H) -> Values \cup {Missing}] /\ k = 0 /\ regions = <<>>
        /\ PrintT("SCEN " \o ToJson([w |-> W, h |-> H, data |-> data]))
Rise == k < Len(Levels) /\ k' = k + 1 /\ regions' = Append(regions, Region(W, H, data, Levels[k + 1])) /\ UNCHANGED data
Spec == Init /\ [][Rise]_vars
Nested == \A a, b \in 1..Len(regions) : a < b => regions[b] \subseteq regions[a]
Gone == \A a \in 1..Len(regions) : \A c \in regions[a] : CellAt(W, data, c[1], c[2]) # Missing
\* What lies between two levels belongs to the lower contour alone
Exact == \A a \in 1..Len(regions) : \A i \in 1..W, j \in 1..H :
   CellAt(W, data, i, j) # Missing => (<<i, j>> \in regions[a]) = (CellAt(W, data, i, j) >= Levels[a])
L == <<20, 60>>
=============================================================================

----------------------------- MODULE MCGridField -----------------------------
(* Design model: a place is looked up by walking from the first row and column *)
(* while the next one is nearer, the longitude taken eastward from the first   *)
(* column; then the field is read there, and between there and its neighbours, *)
(* first along the row and then across. Grids and places are exported.         *)
EXTENDS GridField, TLC, Json
CONSTANTS MaxN, MaxM, Starts, Vs, Tols, West
VARIABLES g, lat, lng, r, c, pc
vars == <<g, lat, lng, r, c, pc>>
D == 4
Shape == UNION {{[lat0 |-> IF down THEN (n - 1) * D ELSE 0, dlat |-> IF down THEN 0 - D ELSE D, n |-> n, lng0 |-> IF west THEN s + (m - 1) * D ELSE s, dlng |-> IF west THEN 0 - D ELSE D, m |-> m, vals |-> v] :
           down \in (IF n = 1 THEN {FALSE} ELSE BOOLEAN), west \in (IF m = 1 THEN {FALSE} ELSE West), s \in Starts, v \in {[k \in 1..(n * m) |-> IF k = hole THEN None ELSE (Vs * ((3 * k) % 7))] : hole \in 0..(n * m)}} :
           n \in 1..MaxN, m \in 1..MaxM}
Init == /\ g \in Shape /\ lat \in 0..((g.n - 1) * D) /\ lng \in 0..(Full - 1)
        /\ r = 0 /\ c = 0 /\ pc = "look"
In == Covers(g, lat, lng)
Look == /\ pc = "look" /\ pc' = (IF In THEN "walk" ELSE "refused") /\ UNCHANGED <<g, lat, lng, r, c>>
\* On the line from the first row, the circle from the first column
Down == Mag(lat - g.lat0)
Off == On(g, lng)
Walk == /\ pc = "walk"
        /\ \/ r + 1 < g.n /\ Mag(Down - (r + 1) * D) < Mag(Down - r * D) /\ r' = r + 1 /\ UNCHANGED <<g, lat, lng, c, pc>>
           \/ c + 1 < g.m /\ Mag(Off - (c + 1) * D) < Mag(Off - c * D) /\ c' = c + 1 /\ UNCHANGED <<g, lat, lng, r, pc>>
Settled == /\ ~(r + 1 < g.n /\ Mag(Down - (r + 1) * D) < Mag(Down - r * D))
           /\ ~(c + 1 < g.m /\ Mag(Off - (c + 1) * D) < Mag(Off - c * D))
Read == /\ pc = "walk" /\ Settled /\ pc' = "read"
        /\ IF Cardinality({k \in DOMAIN g.vals : g.vals[k] = None}) = 1 /\ g.vals[1] # None THEN TRUE
           ELSE PrintT("SCEN " \o ToJson([n |-> g.n, m |-> g.m, down |-> g.dlat < 0, start |-> g.lng0, west |-> g.dlng < 0, i |-> lat, j |-> Off, hole |-> (g.vals[1] = None)]))
        /\ UNCHANGED <<g, lat, lng, r, c>>
Next == Look \/ Walk \/ Read
Spec == Init /\ [][Next]_vars

\* The walk ends at the nearest crossing
Found == pc = "read" => At(g, r, c) \in Nearest(g, lat, lng) /\ r \in NearRows(g, lat) /\ c \in NearCols(g, lng)
\* Along the row, then across (in 1/16 of D at D = 4: quarters)
Along(row, q) == 16 * At(g, row, q[1]) + (IF q[2] = 0 THEN 0 ELSE q[2] * (At(g, row, q[1] + 1) - At(g, row, q[1])))
Across == LET p == RowPos(g, lat) q == ColPos(g, lng) IN
          16 * Along(p[1], q) + (IF p[2] = 0 THEN 0 ELSE p[2] * (Along(p[1] + 1, q) - Along(p[1], q)))
Whole == None \notin {g.vals[k] : k \in DOMAIN g.vals}
Weighed == pc = "read" /\ Whole => Across = Between256(g, lat, lng)
Weights(ws) == LET RECURSIVE W(_) W(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE y \in s : TRUE IN x[3] + W(s \ {x}) IN W(ws)
Fair == pc = "read" => /\ Weights(Corners(g, lat, lng)) = 256
                       /\ \A w \in Corners(g, lat, lng) : w[1] \in Rows_(g) /\ w[2] \in Cols_(g)
                       /\ ~Blank(g, lat, lng) => LET vs == {At(g, w[1], w[2]) : w \in Corners(g, lat, lng)} IN
                             \A x \in {Between256(g, lat, lng)} : (\E v \in vs : 256 * v <= x) /\ (\E v \in vs : 256 * v >= x)
\* On a crossing all three readings agree
Node == pc = "read" /\ (Down % D) = 0 /\ (Off % D) = 0 =>
          /\ IF At(g, r, c) = None THEN Blank(g, lat, lng) /\ Around(g, lat, lng, 0) = <<>>
             ELSE Between256(g, lat, lng) = 256 * At(g, r, c) /\ Around(g, lat, lng, 0) = <<At(g, r, c)>>
\* A wider tolerance takes in what a narrower one does, and the widest everything
Wider == pc = "read" => /\ \A t \in Tols : Len(Around(g, lat, lng, t)) <= Len(Around(g, lat, lng, t + 1))
                        /\ Len(Around(g, lat, lng, Full)) = Cardinality({k \in DOMAIN g.vals : g.vals[k] # None})
Ends == pc = "look" \/ pc = "refused" \/ pc = "read" \/ ENABLED Next
=============================================================================

----------------------------- MODULE MCCartesian -----------------------------
(* Design model: bins are put on the plane one by one, each pixel keeping the  *)
(* nearest so far; bins beyond the limit never are.                            *)
EXTENDS Cartesian, TLCExt, Json
CONSTANTS N, Periods, Directions, Limits, Halves
VARIABLES ps, ds, limit, half, left, shown
vars == <<ps, ds, limit, half, left, shown>>
Asc(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => s[i] < s[j]
Init == /\ ps \in {Asc(P) : P \in (SUBSET Periods) \ {{}}}
        /\ ds \in {Asc(D) : D \in (SUBSET Directions) \ {{}}}
        /\ limit \in Limits /\ half \in Halves
        /\ left = {<<k, i>> : k \in 1..Len(ps), i \in 1..Len(ds)}
        /\ shown = [j \in 1..(N * N) |-> <<>>]
        /\ PrintT("SCEN " \o ToJson([n |-> N, ps |-> ps, ds |-> ds, limit |-> limit, half |-> half]))
First == CHOOSE b \in left : \A o \in left : b[1] < o[1] \/ (b[1] = o[1] /\ b[2] <= o[2])
Spot(b) == Place(N, ps[b[1]], ds[b[2]], limit, half)
Put == /\ left # {}
       /\ left' = left \ {First}
       /\ shown' = IF ~Within(ps[First[1]], limit) THEN shown
                   ELSE [j \in 1..(N * N) |->
                          IF shown[j] = <<>> \/ Sq(Spot(First), Pixel(N, j)) < Sq(Spot(shown[j]), Pixel(N, j)) THEN First ELSE shown[j]]
       /\ UNCHANGED <<ps, ds, limit, half>>
Spec == Init /\ [][Put]_vars
Done == left = {}
Drawn == Done => LET B == Bins(N, ps, ds, limit, half) IN
   \A j \in 1..(N * N) : IF B = {} THEN shown[j] = <<>> ELSE Nearest(B, Pixel(N, j), Spot(shown[j])) /\ Within(ps[shown[j][1]], limit)
\* A bin at the limit is on the edge, upright
Edge == Done => \A b \in {<<k, i>> : k \in 1..Len(ps), i \in 1..Len(ds)} : ps[b[1]] = limit =>
   Spot(b) = CASE ds[b[2]] = 0 -> <<Middle(N), 0>> [] ds[b[2]] = 90 -> <<2 * Middle(N), Middle(N)>>
               [] ds[b[2]] = 180 -> <<Middle(N), 2 * Middle(N)>> [] ds[b[2]] = 270 -> <<0, Middle(N)>> [] OTHER -> Spot(b)
\* Half of a turn turns the picture (odd sizes have a middle pixel)
Rings == Done => \A i \in 1..Len(ds) : \A k, m \in 1..Len(ps) : ps[k] < ps[m] => Far(N, ps[k], limit, half) <= Far(N, ps[m], limit, half)
=============================================================================

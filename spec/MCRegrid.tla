------------------------------ MODULE MCRegrid ------------------------------
(* Regridding stage by stage: the directions are sorted by swapping neighbours *)
(* together with their energies, then every target frequency is interpolated   *)
(* in every direction, then every target direction: each to some value between *)
(* the two it lies between.                                                    *)
EXTENDS Regrid
CONSTANTS F, Turn, Es, TF, TD
VARIABLES ds, e, ds0, e0, pc, mid, out
vars == <<ds, e, ds0, e0, pc, mid, out>>
Max(S) == High(S)
FreqAxis == <<2, 4>>
NDirs == 3
NK == Len(F)
Row(en, i) == [k \in 1..NK |-> en[k + (i - 1) * NK]]
Init == /\ ds0 \in {q \in [1..NDirs -> {x \in 0..(Turn - 1) : x % 2 = 0}] : \A i, j \in 1..NDirs : i # j => q[i] # q[j]}
        /\ e0 \in [1..(NK * NDirs) -> Es]
        /\ ds = ds0 /\ e = e0 /\ pc = "sort" /\ mid = <<>> /\ out = <<>>
Swap(i) == /\ pc = "sort" /\ ds[i] > ds[i + 1]
           /\ ds' = [ds EXCEPT ![i] = ds[i + 1], ![i + 1] = ds[i]]
           /\ e' = [c \in DOMAIN e |-> LET k == ((c - 1) % NK) + 1  r == ((c - 1) \div NK) + 1
                                       IN IF r = i THEN Row(e, i + 1)[k] ELSE IF r = i + 1 THEN Row(e, i)[k] ELSE e[c]]
           /\ UNCHANGED <<ds0, e0, pc, mid, out>>
Sorted == \A i \in 1..(NDirs - 1) : ds[i] < ds[i + 1]
\* any value between
Some(S) == Low(S)..High(S)
Level(i) == IF TF < F[1] THEN {0} ELSE Some({e[k + (i - 1) * NK] : k \in FreqBins(F, TF)})
Freqs == /\ pc = "sort" /\ Sorted /\ pc' = "dirs"
         /\ \E a \in Level(1), b \in Level(2), c \in Level(3) : mid' = <<a, b, c>>
         /\ UNCHANGED <<ds, e, ds0, e0, out>>
\* The enclosing directions of a sorted list, by position
LowerD == LET b == {i \in 1..NDirs : ds[i] <= TD} IN IF b = {} THEN NDirs ELSE Cardinality(b)
UpperD == IF LowerD = NDirs THEN 1 ELSE LowerD + 1
Dirs == /\ pc = "dirs" /\ pc' = "done"
        /\ \E v \in IF ds[LowerD] = TD THEN {mid[LowerD]} ELSE Some({mid[LowerD], mid[UpperD]}) : out' = <<v>>
        /\ UNCHANGED <<ds, e, ds0, e0, mid>>
Next == (\E i \in 1..(NDirs - 1) : Swap(i)) \/ Freqs \/ Dirs
Spec == Init /\ [][Next]_vars

\* Sorting moves every direction's energies along with it
Kept == \A i \in 1..NDirs : \E j \in 1..NDirs : ds[j] = ds0[i] /\ Row(e, j) = Row(e0, i)
\* and the result is what the spectrum as it was listed calls for
Right == pc = "done" => CellFits(F, ds0, e0, TF, TD, Turn, out[1], 1, 0)
Bounded == pc = "done" => out[1] >= 0 /\ out[1] <= Max({e0[c] : c \in DOMAIN e0})
=============================================================================

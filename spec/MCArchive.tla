------------------------------ MODULE MCArchive ------------------------------
(* Design model: variables read side by side, one cell of each at a time, and  *)
(* cut into a record whenever every frequency of a time is there. Cells carry  *)
(* where they come from; some are missing. Shapes are exported.                *)
EXTENDS Archive, TLC, Json
CONSTANTS Vars, Times, Freqs, Holes
VARIABLES T, F, gone, at, row, out
vars == <<T, F, gone, at, row, out>>
Cells(n, f) == (1..Vars) \X (1..(n * f))
RECURSIVE Few(_, _)
Few(S, n) == IF n = 0 THEN {{}} ELSE Few(S, n - 1) \union {x \union {y} : x \in Few(S, n - 1), y \in S}
Init == /\ T \in 0..Times /\ F \in Freqs /\ gone \in Few(Cells(T, F), Holes)
        /\ at = 1 /\ row = <<>> /\ out = <<>>
        /\ PrintT("SCEN " \o ToJson([times |-> T, freqs |-> F, gone |-> gone]))
Cell(i) == [v \in 1..Vars |-> IF <<v, i>> \in gone THEN <<>> ELSE <<v, ((i - 1) \div F) + 1, ((i - 1) % F) + 1>>]
Take == /\ at <= T * F /\ at' = at + 1
        /\ IF Len(row) + 1 = F THEN out' = Append(out, Append(row, Cell(at))) /\ row' = <<>>
           ELSE row' = Append(row, Cell(at)) /\ UNCHANGED out
        /\ UNCHANGED <<T, F, gone>>
Next == Take
Spec == Init /\ [][Next]_vars
\* A record holds its own time only, every frequency in its place, of every variable what is that variable's
Straight == \A i \in 1..Len(out) : \A f \in 1..F : \A v \in 1..Vars :
              out[i][f][v] = IF <<v, F * (i - 1) + f>> \in gone THEN <<>> ELSE <<v, i, f>>
Done == at > T * F => Len(out) = T /\ row = <<>>
=============================================================================

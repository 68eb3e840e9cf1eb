----------------------------- MODULE MCIntegrals -----------------------------
(* Two integrations of one spectrum at once, one along directions first, one   *)
(* along frequencies first, a cell at a time in any interleaving.              *)
EXTENDS SpectralGrid
CONSTANTS Es
F == <<3, 5, 9>>
D == <<0, 2, 3>>
VARIABLES e, a, b, fa, fb      \* cells taken by each, and their sums by bin
vars == <<e, a, b, fa, fb>>
Init == e \in [1..9 -> Es] /\ a = 0 /\ b = 0 /\ fa = [k \in 1..3 |-> 0] /\ fb = [i \in 1..3 |-> 0]
\* Cells in the order of the storage for one, directions running fastest for the other
TakeA == a < 9 /\ LET k == (a \div 3) + 1  i == (a % 3) + 1 IN
           a' = a + 1 /\ fa' = [fa EXCEPT ![k] = @ + Width(D, i) * At(F, e, k, i)] /\ UNCHANGED <<e, b, fb>>
TakeB == b < 9 /\ LET k == (b % 3) + 1  i == (b \div 3) + 1 IN
           b' = b + 1 /\ fb' = [fb EXCEPT ![i] = @ + Width(F, k) * At(F, e, k, i)] /\ UNCHANGED <<e, a, fa>>
Next == TakeA \/ TakeB
Spec == Init /\ [][Next]_vars
Done == a = 9 /\ b = 9
Agree == Done => /\ \A k \in 1..3 : fa[k] = OverDirs(F, D, e, k)
                 /\ \A i \in 1..3 : fb[i] = OverFreqs(F, D, e, i) /\ fb[i] = FreqMoment(F, D, e, i, 0)
                 /\ Sum([k \in 1..3 |-> Width(F, k) * fa[k]], 3) = Sum([i \in 1..3 |-> Width(D, i) * fb[i]], 3)
                 /\ Total(F, D, e) = TotalD(F, D, e)
\* Every cell is stored in one place
Layout == \A k1, k2, i1, i2 \in 1..3 : Index(F, k1, i1) = Index(F, k2, i2) => <<k1, i1>> = <<k2, i2>>
=============================================================================

------------------------------ MODULE MCRebuild ------------------------------
(* Design model: a spectrum is filled in bin by bin, frequency by frequency.  *)
EXTENDS Rebuild, FiniteSets, TLC, TLCExt, Json
CONSTANTS Axes, Spreads, Angles, Energies, Gaps
VARIABLES n, rows, at, filled
vars == <<n, rows, at, filled>>
Marked(c, g) == CASE g = "energy" -> [c EXCEPT !.e = NoEnergy] [] g = "mean" -> [c EXCEPT !.a1 = NoDirection]
                  [] g = "principal" -> [c EXCEPT !.a2 = NoDirection] [] g = "first" -> [c EXCEPT !.r1 = NoSpread]
                  [] g = "second" -> [c EXCEPT !.r2 = NoSpread] [] OTHER -> c
Rows == {Marked([e |-> e, a1 |-> a, a2 |-> b, r1 |-> r, r2 |-> q], g) :
           e \in Energies, a \in Angles, b \in Angles, r \in Spreads, q \in Spreads, g \in Gaps}
\* Every coefficient set next to a whole one
Whole == [e |-> 1000, a1 |-> 90, a2 |-> 90, r1 |-> 50, r2 |-> 25]
Dir(i) == (i - 1) * (360 \div n)
Init == /\ n \in Axes /\ rows \in {<<c, Whole>> : c \in Rows}
        /\ at = 1 /\ filled = <<>>
        /\ PrintT("SCEN " \o ToJson([n |-> n, rows |-> rows]))
\* Directions vary slowest
Put == /\ at <= 2 * n
       /\ LET k == ((at - 1) % 2) + 1  i == ((at - 1) \div 2) + 1
          IN filled' = Append(filled, IF Absent(rows[k]) THEN 0 ELSE (rows[k].e \div 1000) * Share(rows[k], Dir(i)))
       /\ at' = at + 1 /\ UNCHANGED <<n, rows>>
Spec == Init /\ [][Put]_vars
Done == at > 2 * n
Of(k, i) == filled[k + 2 * (i - 1)]
RECURSIVE Total(_, _)
Total(k, i) == IF i = 0 THEN 0 ELSE Of(k, i) + Total(k, i - 1)
Nonnegative == \A j \in 1..Len(filled) : filled[j] >= 0
AbsentIsCalm == Done /\ Absent(rows[1]) => \A i \in 1..n : Of(1, i) = 0
Alone == Done => \A i \in 1..n : Of(2, i) = Share(Whole, Dir(i))
Unclipped(k) == \A i \in 1..n : Wanted(rows[k], Dir(i)) >= 0
Away(x, y) == x - y \in -3..3
\* The energy comes back: the sum of n shares is n/2
Kept == Done => \A k \in 1..2 : ~Absent(rows[k]) /\ Unclipped(k) =>
          LET want == (rows[k].e \div 1000) * 5000 * n IN Total(k, n) - want \in -(n * 12)..(n * 12)
\* More than enough energy where some was clipped
Clipped == Done => \A k \in 1..2 : ~Absent(rows[k]) => Total(k, n) >= (rows[k].e \div 1000) * 5000 * n - n * 12
Symmetric == Done => \A k \in 1..2 : ~Absent(rows[k]) /\ rows[k].a1 = rows[k].a2 =>
               \A i, j \in 1..n : (Dir(i) + Dir(j)) % 360 = (2 * rows[k].a1) % 360 => Away(Of(k, i), Of(k, j))
\* Most comes from the mean direction when both are one
Peaked == Done => \A k \in 1..2 : ~Absent(rows[k]) /\ rows[k].a1 = rows[k].a2 =>
            \A i, j \in 1..n : Dir(i) = rows[k].a1 => Of(k, i) >= Of(k, j) - 3
=============================================================================

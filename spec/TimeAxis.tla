------------------------------ MODULE TimeAxis ------------------------------
(* The hours a forecast model puts out, numbered from 0: every `near` hours up *)
(* to the cutoff, every `far` hours from there on.                             *)
EXTENDS Integers, Sequences

Near_(k) == IF k \in {"hourly", "hybrid1"} THEN 1 ELSE 3
Far_(k) == CASE k = "hourly" -> 1 [] k \in {"hybrid1", "three"} -> 3 [] k = "hybrid3" -> 6
\* Without a cutoff near and far are the same, and it is taken as 0
Uniform(k) == k \in {"hourly", "three"}
\* What hour output i is for; outputs up to number Turn are near ones
Turn(k, cut) == cut \div Near_(k)
HourOf(k, cut, i) == IF Uniform(k) THEN i * Near_(k)
                     ELSE IF i <= Turn(k, cut) THEN i * Near_(k)
                     ELSE cut + (i - Turn(k, cut)) * Far_(k)
\* The latest output not after the hour
IndexOf(k, cut, h, i) == HourOf(k, cut, i) <= h /\ h < HourOf(k, cut, i + 1)
\* What each model puts out
Axes == [atlantic |-> <<"hybrid1", 120>>, west_coast |-> <<"hybrid1", 120>>, east_pacific |-> <<"hybrid1", 120>>, global_16 |-> <<"hybrid1", 120>>,
         global_25 |-> <<"hybrid1", 120>>, mean |-> <<"hybrid3", 240>>, spread |-> <<"hybrid3", 240>>, boston |-> <<"hourly", 0>>]
KindOf(t) == IF "model" \in DOMAIN t THEN Axes[t.model][1] ELSE t.kind
CutOf(t) == IF "model" \in DOMAIN t THEN Axes[t.model][2] ELSE t.cut
=============================================================================

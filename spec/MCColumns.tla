------------------------------ MODULE MCColumns ------------------------------
(* Design model: a row of either table taken column by column, any of its      *)
(* quantities missing, and the record made of it taken through unit systems    *)
(* and into a map. What is missing and the systems are exported.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, MetTable
CONSTANTS Depth, Gone
VARIABLES kind, missing, at, rec, units, ops
vars == <<kind, missing, at, rec, units, ops>>
Names_ == {Quantities[j][1] : j \in 1..12}
Missing == {x \in SUBSET Names_ : Cardinality(x) <= Gone} \union {Names_}
Init == /\ kind \in {"met", "latest"} /\ missing \in Missing /\ at = 1 /\ rec = <<>> /\ units = <<>> /\ ops = <<>>
Heads == Head_(kind)
Which(h) == CHOOSE j \in 1..12 : Quantities[j][1] = h
Take == /\ at <= Len(Heads) /\ at' = at + 1
        /\ rec' = IF Heads[at] \in Names_ /\ Heads[at] \notin missing THEN Append(rec, <<Which(Heads[at]), at>>) ELSE rec
        /\ units' = IF at = Len(Heads) THEN [j \in 1..12 |-> Quantities[j][3]] ELSE units
        /\ UNCHANGED <<kind, missing, ops>>
Convert == /\ at > Len(Heads) /\ Len(ops) < Depth
           /\ \E sys \in Systems : /\ ops' = Append(ops, sys) /\ units' = [j \in 1..12 |-> SystemUnit(units[j], sys)]
                                   /\ PrintT("SCEN " \o ToJson([kind |-> kind, missing |-> missing, ops |-> ops']))
           /\ UNCHANGED <<kind, missing, at, rec>>
Next == Take \/ Convert
Spec == Init /\ [][Next]_vars
\* Every quantity comes from the column headed by it, none from two, none out of nothing
Own == at > Len(Heads) => /\ {rec[i][1] : i \in 1..Len(rec)} = {j \in 1..12 : Quantities[j][1] \notin missing}
                         /\ \A i \in 1..Len(rec) : rec[i][2] = Col(kind, rec[i][1])
                         /\ \A j \in 1..2 : Heads[BearingCol(kind, j)] = Bearings[j][1]
Apart == Cardinality({Quantities[j][2] : j \in 1..12} \union {Bearings[j][2] : j \in 1..2}) = 14
Kept == at > Len(Heads) => \A j \in 1..12 : Kind(units[j]) = Kind(Quantities[j][3])
=============================================================================

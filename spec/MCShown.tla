------------------------------- MODULE MCShown -------------------------------
(* Two quantities shown side by side: reading what is shown tells them apart    *)
(* as far as a tenth does, and a missing one from all others.                   *)
EXTENDS Shown, Integers, FiniteSets
CONSTANTS Most, Kinds
VARIABLES a, b, unit, said
vars == <<a, b, unit, said>>
Vals == {<<>>} \union {<<x>> : x \in (0 - Most)..Most}
Init == a \in Vals /\ b \in {<<>>} /\ unit \in Kinds /\ said = {}
Measure == said = {} /\ \E x \in Vals : x # b /\ b' = x /\ UNCHANGED <<a, unit, said>>
Say == said = {} /\ said' \in {{s, t} : s \in ShownAs(a, unit), t \in ShownAs(b, unit)} /\ UNCHANGED <<a, b, unit>>
Next == Measure \/ Say
Spec == Init /\ [][Next]_vars
Gap == IF a # <<>> /\ b # <<>> THEN Size(a[1] - b[1]) ELSE 0
\* Alike only within a tenth of one another, and both there or both missing
Alike == Cardinality(said) = 1 => (a = <<>>) = (b = <<>>) /\ Gap <= 100
Missing == (Absent \in said) = (said # {} /\ (a = <<>> \/ b = <<>>))
\* Every number can be shown, in one way unless it is half way or next to nothing
Sayable == a # <<>> => Numbers(a[1]) # {} /\ (Cardinality(Tenths(a[1])) = 1 \/ Size(a[1]) % 100 = 50)
=============================================================================

----------------------------- MODULE MCTimeAxis -----------------------------
(* Design model: a model putting out one hour after the other.                 *)
EXTENDS TimeAxis
CONSTANTS Kinds, Cuts, Most
VARIABLES kind, cut, i, hour
vars == <<kind, cut, i, hour>>
Init == kind \in Kinds /\ cut \in Cuts /\ i = 0 /\ hour = 0
PutOut == /\ i < Most /\ i' = i + 1 /\ UNCHANGED <<kind, cut>>
          /\ hour' = hour + (IF Uniform(kind) \/ hour < cut THEN Near_(kind) ELSE Far_(kind))
Next == PutOut
Spec == Init /\ [][Next]_vars
Numbered == hour = HourOf(kind, cut, i)
\* Exactly one output is in effect at each hour
InEffect == \A h \in 0..hour : \E j \in 0..i : IndexOf(kind, cut, h, j) /\ \A k \in 0..i : IndexOf(kind, cut, h, k) => k = j
Onward == [][hour' > hour]_vars
=============================================================================

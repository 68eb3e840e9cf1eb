------------------------------- MODULE MCUnits -------------------------------
(* Design model: a quantity taken through every history of unit systems.      *)
EXTENDS Units
CONSTANT Depth
VARIABLES unit, was, k
Init == unit \in Names /\ was = unit /\ k = 0
To(s) == unit' = SystemUnit(unit, s)
Next == k < Depth /\ k' = k + 1 /\ UNCHANGED was /\ \E s \in Systems : To(s)
Spec == Init /\ [][Next]_<<unit, was, k>>
SameKind == Kind(unit) = Kind(was)
\* There is a conversion wherever a system asks for one, and asking again changes nothing
Sound == \A s \in Systems : LET t == SystemUnit(unit, s) IN
            /\ t = unit \/ Related(unit, t)
            /\ SystemUnit(t, s) = t
\* A way back always exists, and its ratio is the inverse
Reversible == \A t \in Names : Related(unit, t) =>
                 /\ Related(t, unit)
                 /\ HasRatio(unit, t) => Ratios[unit][t][1] * Ratios[t][unit][1] = Ratios[unit][t][2] * Ratios[t][unit][2]
\* The two ways round from one unit to a third agree (within 0.05 percent)
Consistent == \A t \in Names, v \in Names : HasRatio(unit, t) /\ HasRatio(t, v) /\ HasRatio(unit, v) =>
                LET a == Ratios[unit][t] b == Ratios[t][v] c == Ratios[unit][v]
                    x == a[1] * b[1] * c[2] y == a[2] * b[2] * c[1]
                IN AbsU(x - y) <= x \div 2000 + 1
=============================================================================

------------------------------ MODULE MCRecord ------------------------------
(* Design model: a record of several quantities through every history of      *)
(* conversions and publications. The histories are exported for the driver.   *)
EXTENDS Record, TLC, TLCExt, Json
CONSTANTS Fields, Ops, Depth, Masks
\* A height, a speed, a temperature, a pressure, a period and a distance
F == <<"Meters", "MetersPerSecond", "Celsius", "HectaPascal", "Seconds", "NauticalMiles", "Feet", "Unknown">>
O == {"Metric", "English", "Knots", "Kelvin"}
P == {"Metric", "English", "Publish"}
M == {[i \in 1..6 |-> FALSE], [i \in 1..6 |-> i % 3 = 1]}
N == {[i \in 1..6 |-> m = i] : m \in 0..6} \cup {[i \in 1..6 |-> i % 2 = 0], [i \in 1..6 |-> TRUE]}
VARIABLES units, was, missing, gone, ops
vars == <<units, was, missing, gone, ops>>
Init == /\ was \in {Fields}
        /\ units = was
        /\ missing \in Masks /\ gone = missing
        /\ ops = <<>>
Do(op) == /\ Len(ops) < Depth
          /\ ops' = Append(ops, op)
          /\ units' = IF op = "Publish" THEN Published(units) ELSE Converted(units, op)
          /\ PrintT("SCEN " \o ToJson([ops |-> ops', missing |-> missing]))
          /\ UNCHANGED <<was, missing, gone>>
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars

Last(s) == s[Len(s)]
Real == SelectSeq(ops, LAMBDA o : o # "Publish")
\* Each quantity is where it would be had it gone alone
RECURSIVE Alone(_, _)
Alone(u, h) == IF h = <<>> THEN u ELSE Alone(SystemUnit(u, Head(h)), Tail(h))
Together == \A i \in DOMAIN units : units[i] = Alone(was[i], Real)
\* To English and straight back is back where metric had it
Restored == \A i \in DOMAIN units :
              Len(Real) >= 2 /\ Real[Len(Real)] = "Metric" /\ Real[Len(Real) - 1] = "English"
                => /\ units[i] = SystemUnit(units[i], "Metric")
                   /\ Kind(units[i]) = Kind(was[i])
NoneLost == gone = missing
=============================================================================

-------------------------------- MODULE Units --------------------------------
(* Units of measure: their physical kinds, the exact ratio of related units as *)
(* a quotient of small integers (good to 0.005 percent), and which unit each   *)
(* unit system has for a unit.                                                 *)
EXTENDS Integers, Sequences

Names == {"Millimeters", "Meters", "MetersPerSecond", "Celsius", "Pascal", "HectaPascal", "Inches", "Feet",
          "MilesPerHour", "Fahrenheit", "InchesMercury", "Knots", "Kelvin", "MetersSquaredPerHertz",
          "NauticalMiles", "Degrees", "Seconds", "Percent", "KiloJoules", "Unknown"}
Systems == {"Metric", "English", "Knots", "Kelvin"}

Kind(u) == CASE u \in {"Millimeters", "Meters", "Inches", "Feet", "NauticalMiles"} -> "length"
             [] u \in {"MetersPerSecond", "MilesPerHour", "Knots"} -> "speed"
             [] u \in {"Celsius", "Fahrenheit", "Kelvin"} -> "temperature"
             [] u \in {"Pascal", "HectaPascal", "InchesMercury"} -> "pressure"
             [] OTHER -> u

\* <<n, d>>: one of `a` is n/d of `b`
Ratios == [Millimeters |-> [Meters |-> <<1, 1000>>, Inches |-> <<5, 127>>],
           Meters |-> [Millimeters |-> <<1000, 1>>, Feet |-> <<1250, 381>>],
           Inches |-> [Feet |-> <<1, 12>>, Millimeters |-> <<127, 5>>],
           Feet |-> [Inches |-> <<12, 1>>, Meters |-> <<381, 1250>>],
           MetersPerSecond |-> [MilesPerHour |-> <<85, 38>>, Knots |-> <<173, 89>>],
           MilesPerHour |-> [MetersPerSecond |-> <<38, 85>>, Knots |-> <<126, 145>>],
           Knots |-> [MetersPerSecond |-> <<89, 173>>, MilesPerHour |-> <<145, 126>>],
           Pascal |-> [HectaPascal |-> <<1, 100>>],
           HectaPascal |-> [Pascal |-> <<100, 1>>, InchesMercury |-> <<22, 745>>],
           InchesMercury |-> [HectaPascal |-> <<745, 22>>]]
HasRatio(a, b) == a \in DOMAIN Ratios /\ b \in DOMAIN Ratios[a]
Temperatures == {"Celsius", "Fahrenheit", "Kelvin"}
Related(a, b) == a # b /\ (HasRatio(a, b) \/ (a \in Temperatures /\ b \in Temperatures))

\* The unit that system s has for u; u itself where s has none
SystemUnit(u, s) ==
  CASE s = "Metric" /\ u \in {"Millimeters", "Inches"} -> "Millimeters"
    [] s = "English" /\ u \in {"Millimeters", "Inches"} -> "Inches"
    [] s = "Metric" /\ u \in {"Meters", "Feet"} -> "Meters"
    [] s = "English" /\ u \in {"Meters", "Feet"} -> "Feet"
    [] s = "Metric" /\ Kind(u) = "speed" -> "MetersPerSecond"
    [] s = "English" /\ Kind(u) = "speed" -> "MilesPerHour"
    [] s = "Knots" /\ Kind(u) = "speed" -> "Knots"
    [] s = "Metric" /\ Kind(u) = "temperature" -> "Celsius"
    [] s = "English" /\ Kind(u) = "temperature" -> "Fahrenheit"
    [] s = "Kelvin" /\ Kind(u) = "temperature" -> "Kelvin"
    [] s = "Metric" /\ u \in {"HectaPascal", "InchesMercury"} -> "HectaPascal"
    [] s = "English" /\ u \in {"HectaPascal", "InchesMercury"} -> "InchesMercury"
    [] OTHER -> u

AbsU(x) == IF x < 0 THEN -x ELSE x
\* y of b is what x of a comes to, within 0.2 percent, x and y in the same fixed point
Scaled(a, b, x, y) == LET n == Ratios[a][b][1] d == Ratios[a][b][2] IN
                      AbsU(y * d - x * n) <= AbsU(x * n) \div 500 + n + d
\* Temperatures within 0.2 degrees; `one` is one degree in the fixed point of x and y
Kelvins(a, b, x, y, one) ==
  CASE a = "Celsius" /\ b = "Fahrenheit" -> AbsU(y * 5 - x * 9 - 160 * one) <= one + 14
    [] a = "Fahrenheit" /\ b = "Celsius" -> AbsU(y * 9 - x * 5 + 160 * one) <= (9 * one) \div 5 + 14
    [] a = "Celsius" /\ b = "Kelvin" -> AbsU(y - x - (27315 * one) \div 100) <= one \div 5 + 2
    [] a = "Kelvin" /\ b = "Celsius" -> AbsU(y - x + (27315 * one) \div 100) <= one \div 5 + 2
    [] a = "Kelvin" /\ b = "Fahrenheit" -> AbsU(y * 5 - x * 9 + 5 * ((45967 * one) \div 100)) <= one + 19
    [] a = "Fahrenheit" /\ b = "Kelvin" -> AbsU(y * 9 - x * 5 - 5 * ((45967 * one) \div 100)) <= (9 * one) \div 5 + 19
Converts(a, b, x, y, one) == IF a \in Temperatures THEN Kelvins(a, b, x, y, one) ELSE Scaled(a, b, x, y)
=============================================================================

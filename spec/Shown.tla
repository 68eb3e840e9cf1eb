-------------------------------- MODULE Shown --------------------------------
(* Values in words. v: none or one number, in thousandths; u: its unit. What is *)
(* shown is the number to a tenth with its unit behind it, directions in whole  *)
(* degrees with the name of their point, and what is missing as such.           *)
(* The degree sign is spelled deg and the square 2 here.                        *)
EXTENDS Compass, TLC

Abbrev == [Millimeters |-> "mm", Meters |-> "m", MetersPerSecond |-> "m/s", Celsius |-> "degC", Pascal |-> "pa", HectaPascal |-> "hpa",
           Inches |-> "in", Feet |-> "ft", MilesPerHour |-> "mph", Fahrenheit |-> "degF", InchesMercury |-> "in Hg", Knots |-> "kt",
           Kelvin |-> "K", MetersSquaredPerHertz |-> "m2/Hz", NauticalMiles |-> "nmi", Degrees |-> "deg", Seconds |-> "s", Percent |-> "%",
           KiloJoules |-> "kJ", Unknown |-> ""]
Suffix(u) == IF u = "Degrees" THEN "" ELSE " " \o Abbrev[u]
Absent == "N/A"
Size(v) == IF v < 0 THEN 0 - v ELSE v
\* The tenths a number may be shown as: nearest, either way from the middle
Tenths(v) == {t \in {Size(v) \div 100, (Size(v) \div 100) + 1} : Size(v) - 100 * t <= 50 /\ 100 * t - Size(v) <= 50}
Digits(t) == ToString(t \div 10) \o "." \o ToString(t % 10)
Signs(v, t) == IF v >= 0 THEN {""} ELSE IF t = 0 THEN {"", "-"} ELSE {"-"}
Numbers(v) == UNION {{sg \o Digits(t) : sg \in Signs(v, t)} : t \in Tenths(v)}
ShownAs(v, u) == IF v = <<>> THEN {Absent} ELSE {n \o Suffix(u) : n \in Numbers(v[1])}
\* Whole numbers are shown whole
WholeAs(v, u) == IF v = <<>> THEN {Absent} ELSE {ToString(v[1]) \o Suffix(u)}
Bearing(d) == ToString(d) \o "deg " \o PointOf(d)
BearingAs(d, u) == IF d = <<>> THEN {Absent} ELSE {Bearing(d[1]) \o Suffix(u)}
SwellAs(h, hu, p, d) == {x \o " @ " \o y \o " " \o z : x \in ShownAs(h, hu), y \in ShownAs(p, "Seconds"), z \in BearingAs(d, "Degrees")}
=============================================================================

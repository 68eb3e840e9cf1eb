------------------------------ MODULE Spellings ------------------------------
(* The ways units are written in the data sources, in lower case; ~xx is the    *)
(* character of that code. Case and surrounding blanks make no difference.      *)
EXTENDS Sequences, Naturals
Spelled == <<
  <<"Millimeters", {"mm", "millimeters", "millimeter"}>>,
  <<"Meters", {"m", "meters", "meter", "wmounit:m"}>>,
  <<"MetersPerSecond", {"m/s", "mps", "ms-1", "meterspersecond", "meterpersecond"}>>,
  <<"Celsius", {"~b0c", "c", "degcelsius", "degreecelsius", "degreescelsius", "wmounit:degc"}>>,
  <<"Pascal", {"pa", "pascals", "pascal"}>>,
  <<"HectaPascal", {"hpa", "hectapascals", "hectapascal"}>>,
  <<"Inches", {"in", "inches", "inch"}>>,
  <<"Feet", {"ft", "feet", "foot"}>>,
  <<"MilesPerHour", {"mph", "m/h", "mh-1", "milesperhour"}>>,
  <<"Fahrenheit", {"~b0f", "f", "degfahrenheit", "degreesfahrenheit", "degreefahrenheit"}>>,
  <<"InchesMercury", {"inhg"}>>,
  <<"Knots", {"kt", "kts", "knots", "knot"}>>,
  <<"Kelvin", {"k", "kelvin"}>>,
  <<"MetersSquaredPerHertz", {"m^2/hz", "m2hz-1", "meterssquaredperhertz"}>>,
  <<"NauticalMiles", {"nmi", "nauticalmiles", "nauticalmile"}>>,
  <<"Degrees", {"~b0", "deg", "degs", "degrees", "degree"}>>,
  <<"Seconds", {"s", "second", "seconds"}>>,
  <<"Percent", {"%", "percent", "percentage", "wmounit:percent"}>>,
  <<"KiloJoules", {"kj", "kilojoules", "kilojoule"}>>,
  <<"Unknown", {"furlong", "metre/hz", "mk", "~b0k", "wmounit:", "meters/second", "ss", "1", "mm2", "knot/h"}>>
>>
\* No text names two units
ASSUME \A i, j \in 1..Len(Spelled) : i # j => Spelled[i][2] \cap Spelled[j][2] = {}
Known(text) == \E i \in 1..Len(Spelled) : text \in Spelled[i][2]
Named(text) == Spelled[CHOOSE i \in 1..Len(Spelled) : text \in Spelled[i][2]][1]
=============================================================================

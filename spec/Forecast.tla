------------------------------- MODULE Forecast -------------------------------
(* Weather forecasts: a list of periods, each with its own values and absences.*)
(* A value is <<v>> or <<>>; a wind is [k, a, u]: the kind of its text, the    *)
(* first number and the unit it names.                                         *)
EXTENDS Calendar, FiniteSets
Compass16 == <<"N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW">>
\* Minutes since year 1, in UTC
Minute(t, offset) == Hours(t) * 60 + t[5] - offset
UnitOf(code) == CASE code \in {"F"} -> "Fahrenheit" [] code \in {"C", "wmoUnit:degC"} -> "Celsius"
                  [] code = "wmoUnit:percent" -> "Percent" [] code = "mph" -> "MilesPerHour"
                  [] code = "kt" -> "Knots" [] code = "m/s" -> "MetersPerSecond" [] OTHER -> "Unknown"
Speed(w) == IF w.k \in {"single", "range", "bare"} THEN <<w.a>> ELSE <<>>
SpeedUnit(w) == IF w.k \in {"single", "range"} THEN UnitOf(w.u) ELSE "Unknown"
\* A field is there with a value, there without one, or not there
Value(f) == IF f.k = "value" THEN <<f.v>> ELSE <<>>
=============================================================================

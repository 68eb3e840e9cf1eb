------------------------------- MODULE Archive -------------------------------
(* Archived datasets of a buoy: variables over the same times, laid out flat   *)
(* (over times and then frequencies for spectra), each with the number it has  *)
(* where there is no value. Numbers in 1/1000.                                 *)
EXTENDS Integers, Sequences

\* Standard observations: the variable, what it has for no value, its unit
Standard == <<<<"wind_dir", 999000, "Degrees">>, <<"wind_spd", 99000, "MetersPerSecond">>, <<"gust", 99000, "MetersPerSecond">>,
              <<"wave_height", 99000, "Meters">>, <<"dominant_wpd", 99000, "Seconds">>, <<"average_wpd", 99000, "Seconds">>,
              <<"mean_wave_dir", 999000, "Degrees">>, <<"air_pressure", 9999000, "HectaPascal">>, <<"air_temperature", 999000, "Celsius">>,
              <<"sea_surface_temperature", 999000, "Celsius">>, <<"dewpt_temperature", 999000, "Celsius">>,
              <<"visibility", 99000, "NauticalMiles">>, <<"water_level", 99000, "Feet">>>>
Spectral == <<"spectral_wave_density", "mean_wave_dir", "principal_wave_dir", "wave_spectrum_r1", "wave_spectrum_r2">>
Opt(j, x) == IF x = Standard[j][2] THEN <<>> ELSE <<x>>
\* The spectrum of time i of a flat variable over F frequencies
Row(flat, F, i) == SubSeq(flat, F * (i - 1) + 1, F * i)
=============================================================================

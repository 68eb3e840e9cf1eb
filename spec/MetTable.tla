------------------------------ MODULE MetTable ------------------------------
(* Tables of meteorological observations: those of one buoy ("met") and the    *)
(* latest ones of every station ("latest"), which start with the station and   *)
(* its place. Both give the same quantities, in columns of their own.          *)
EXTENDS Table, Units

\* The columns as the files head them
Head_(kind) == IF kind = "met" THEN <<"YY", "MM", "DD", "hh", "mm", "WDIR", "WSPD", "GST", "WVHT", "DPD", "APD", "MWD", "PRES", "ATMP", "WTMP", "DEWP", "VIS", "PTDY", "TIDE">>
               ELSE <<"STN", "LAT", "LON", "YY", "MM", "DD", "hh", "mm", "WDIR", "WSPD", "GST", "WVHT", "DPD", "APD", "MWD", "PRES", "PTDY", "ATMP", "WTMP", "DEWP", "VIS", "TIDE">>
\* What is read of them: the column, the name it goes by, its unit in the files
Quantities == <<<<"WSPD", "wind speed", "MetersPerSecond">>, <<"GST", "wind gust speed", "MetersPerSecond">>, <<"WVHT", "wave height", "Meters">>,
                <<"DPD", "dominant wave period", "Seconds">>, <<"APD", "average wave period", "Seconds">>, <<"PRES", "air pressure", "HectaPascal">>,
                <<"ATMP", "air temperature", "Celsius">>, <<"WTMP", "water temperature", "Celsius">>, <<"DEWP", "dewpoint temperature", "Celsius">>,
                <<"VIS", "visibility", "NauticalMiles">>, <<"PTDY", "air pressure tendency", "HectaPascal">>, <<"TIDE", "tide", "Feet">>>>
Bearings == <<<<"WDIR", "wind direction">>, <<"MWD", "mean wave direction">>>>
MetCols == [j \in 1..12 |-> CHOOSE c \in 1..19 : Head_("met")[c] = Quantities[j][1]]
LatestCols == [j \in 1..12 |-> CHOOSE c \in 1..22 : Head_("latest")[c] = Quantities[j][1]]
Col(kind, j) == IF kind = "met" THEN MetCols[j] ELSE LatestCols[j]
BearingCol(kind, j) == IF kind = "met" THEN <<6, 12>>[j] ELSE <<9, 15>>[j]
Stamp_(kind, r) == IF kind = "met" THEN SubSeq(r, 1, 5) ELSE SubSeq(r, 4, 8)

MetOK(kind, r) == /\ Len(r) >= Len(Head_(kind))
                  /\ DateOK(Stamp_(kind, r))
                  /\ kind = "latest" => Num(r[2]) /\ Num(r[3])
MetRows(kind, lines) == SelectSeq([j \in 1..Len(lines) |-> j], LAMBDA j : lines[j].k = "row" /\ MetOK(kind, lines[j].toks))
=============================================================================

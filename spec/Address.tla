------------------------------- MODULE Address -------------------------------
(* The addresses data is fetched from, put together from what is asked for,    *)
(* and the constraints of OPeNDAP addresses.                                   *)
EXTENDS ModelClock, TLC

Two(n) == (IF n < 10 THEN "0" ELSE "") \o ToString(n)
Three(n) == (IF n < 100 THEN "0" ELSE "") \o Two(n)
Stamp(run) == ToString(run[1]) \o Two(run[2]) \o Two(run[3])
Cycle(run) == Two(run[4])

\* ---- a buoy's files
Live == [met |-> "txt", wave |-> "spec", spectral |-> "data_spec", meandir |-> "swdir", principaldir |-> "swdir2", r1 |-> "swr1", r2 |-> "swr2"]
Archive == [stdmet |-> "h", swden |-> "w"]
Buoy(what, id) ==
  IF what = "latest" THEN "https://ndbc.noaa.gov/data/latest_obs/" \o id \o ".txt"
  ELSE "https://www.ndbc.noaa.gov/data/realtime2/" \o id \o "." \o Live[what]
Archived(what, id) == "https://dods.ndbc.noaa.gov/thredds/dodsC/data/" \o what \o "/" \o id \o "/" \o id \o Archive[what] \o "9999.nc"

\* ---- what lists them
Directories == <<"https://www.ndbc.noaa.gov/activestations.xml", "https://www.ndbc.noaa.gov/data/latest_obs/latest_obs.txt">>

\* ---- constraints: [var, ranges], a range being <<start, step, end>>
RECURSIVE Ranges(_)
Ranges(rs) == IF rs = <<>> THEN "" ELSE "[" \o ToString(rs[1][1]) \o ":" \o ToString(rs[1][2]) \o ":" \o ToString(rs[1][3]) \o "]" \o Ranges(Tail(rs))
Constraint(c) == c.var \o Ranges(c.ranges)
RECURSIVE Constraints(_)
Constraints(cs) == IF cs = <<>> THEN "" ELSE Constraint(cs[1]) \o (IF Len(cs) > 1 THEN "," ELSE "") \o Constraints(Tail(cs))
Dods(root, cs) == root \o ".dods?" \o Constraints(cs)

\* ---- forecasts
Gfs == [aws |-> "https://noaa-gfs-bdp-pds.s3.amazonaws.com", nomads |-> "https://nomads.ncep.noaa.gov/pub/data/nccf/com/gfs/prod", gcp |-> "https://storage.googleapis.com/global-forecast-system"]
Gefs == [aws |-> "https://noaa-gefs-pds.s3.amazonaws.com", nomads |-> "https://nomads.ncep.noaa.gov/pub/data/nccf/com/gefs/prod"]
Bulletins(run) == "gfs." \o Stamp(run) \o "/" \o Cycle(run) \o "/wave/station/bulls.t" \o Cycle(run) \o "z"
Forecast(what, id, src, run) == Gfs[src] \o "/" \o Bulletins(run) \o "/gfswave." \o id \o (IF what = "bulletin" THEN ".cbull" ELSE ".spec")
Listing(src, run) == Gfs[src] \o "/gfs." \o Stamp(run) \o "/" \o Cycle(run) \o "/wave/station/ls-l"
BulletinRoot(src, run) == Gfs[src] \o "/" \o Bulletins(run) \o "/"

GfsIds == [atlantic |-> "atlocn.0p16", west_coast |-> "wcoast.0p16", east_pacific |-> "epacif.0p16", global_16 |-> "global.0p16", global_25 |-> "global.0p25"]
GefsIds == [mean |-> "mean.global.0p25", spread |-> "spread.global.0p25"]
\* Gridded output: the run is the latest available, the hour that of the output
Grid(model, src, hour, run) ==
  IF model \in DOMAIN GfsIds
  THEN Gfs[src] \o "/gfs." \o Stamp(run) \o "/" \o Cycle(run) \o "/wave/gridded/gfswave.t" \o Cycle(run) \o "z." \o GfsIds[model] \o ".f" \o Three(hour) \o ".grib2"
  ELSE IF model \in DOMAIN GefsIds
  THEN Gefs[src] \o "/gefs." \o Stamp(run) \o "/" \o Cycle(run) \o "/wave/gridded/gefs.wave.t" \o Cycle(run) \o "z." \o GefsIds[model] \o ".f" \o Three(hour) \o ".grib2"
  ELSE "https://nomads.ncep.noaa.gov/pub/data/nccf/com/nwps/prod/er." \o Stamp(run) \o "/box/" \o Cycle(run) \o "/CG1/box_nwps_CG1_" \o Stamp(run) \o "_" \o Cycle(run) \o "00.grib2"
\* The run to take at t, as an instant
RECURSIVE Back(_, _)
Back(run, h) == IF h = 0 THEN run
                ELSE Back(IF run[4] > 0 THEN [run EXCEPT ![4] = @ - 1]
                          ELSE IF run[3] > 1 THEN [run EXCEPT ![3] = @ - 1, ![4] = 23]
                          ELSE IF run[2] > 1 THEN [run EXCEPT ![2] = @ - 1, ![3] = DaysIn(run[1], run[2] - 1), ![4] = 23]
                          ELSE <<run[1] - 1, 12, 31, 23, 0, 0, 0>>, h - 1)
RunAt(t) == LET h == Hours(t) - Latency("gridded") IN
            Back(<<t[1], t[2], t[3], t[4], 0, 0, 0>>, Latency("gridded") + (h % 6))

\* ---- a constraint text, as tokens: a name "v", "[", ":", "]", a number "n", anything else
Shape(j) == <<"[", "n", ":", "n", ":", "n", "]">>[(j % 7) + 1]
WellFormed(ts) == /\ Len(ts) >= 1 /\ ts[1] = "v" /\ ((Len(ts) - 1) % 7) = 0
                  /\ \A j \in 2..Len(ts) : ts[j] = Shape(j - 2)
=============================================================================

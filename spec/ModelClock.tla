------------------------------ MODULE ModelClock ------------------------------
(* Which model run to use at an instant. Runs are made every `step` hours of   *)
(* the day and become available `latency` hours after their cycle.             *)
EXTENDS Calendar

Sources == {"station", "gridded", "hourly"}
StepOf(src) == IF src = "hourly" THEN 1 ELSE 6
Latency(src) == CASE src = "station" -> 6 [] src = "gridded" -> 5 [] src = "hourly" -> 2

OnGrid(run, step) == Whole(run) /\ IsInstant(run) /\ run[4] % step = 0
\* The run of cycle hour number h (hours) is available at t
Available(h, t, src) == Hours(t) - h >= Latency(src)   \* run hours are whole
\* run is the latest available one on the grid; a day is a whole number of steps
Latest(run, t, src) == /\ OnGrid(run, StepOf(src))
                       /\ Available(Hours(run), t, src)
                       /\ ~Available(Hours(run) + StepOf(src), t, src)
\* The start of the step that t is in
Floor(f, t, step) == /\ OnGrid(f, step) /\ Day(f) = Day(t)
                     /\ f[4] <= t[4] /\ t[4] < f[4] + step
\* The runs in effect from a to b: one every six hours
Window(runs, a, b) ==
  LET first == Hours(a) - (Hours(a) % 6) IN
  /\ \A i \in 1..Len(runs) : OnGrid(runs[i], 6) /\ Hours(runs[i]) = first + 6 * (i - 1) /\ NotBefore(b, runs[i])
  /\ Hours(b) < first + 6 * Len(runs)
=============================================================================

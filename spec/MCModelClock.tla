----------------------------- MODULE MCModelClock -----------------------------
(* Design model: a clock that ticks hour by hour through real dates, and a     *)
(* publisher that makes runs; the run chosen is always the newest published.   *)
EXTENDS ModelClock
CONSTANTS Years, Src
VARIABLES now, published, hours
\* `now` advances by NextDay and hours alone; published: cycle hours available so far, newest
Init == /\ \E y \in Years, md \in {<<12, 30>>, <<2, 27>>, <<4, 29>>} :
              now = <<y, md[1], md[2], 0, 0, 0, 0>> /\ hours = DayNumber(y, md[1], md[2]) * 24
        /\ published = (LET h == Hours(now) - Latency(Src) IN h - (h % StepOf(Src)))
Tick == /\ Hours(now) < hours + 1000   \* true: only bounds the type
        /\ now' = IF now[4] < 23 THEN [now EXCEPT ![4] = @ + 1]
                  ELSE LET d == NextDay(now) IN <<d[1], d[2], d[3], 0, 0, 0, 0>>
        /\ hours' = hours + 1
        /\ LET h == hours' - Latency(Src) IN
           published' = IF h % StepOf(Src) = 0 THEN h ELSE published
Next == now[3] # 6 /\ Tick
Spec == Init /\ [][Next]_<<now, published, hours>>
Calendrical == Hours(now) = hours /\ IsInstant(now)
\* Exactly the run whose cycle was published last is the latest one
Chosen == /\ Available(published, now, Src) /\ ~Available(published + StepOf(Src), now, Src)
          /\ published % StepOf(Src) = 0 /\ published <= hours
Monotone == [][published' >= published]_<<now, published, hours>>
=============================================================================

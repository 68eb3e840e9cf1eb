------------------------------- MODULE Calendar -------------------------------
(* The civil calendar. A date is <<year, month, day>>; an instant adds hour,   *)
(* minute, second and nanosecond.                                              *)
EXTENDS Integers, Sequences

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                  [] m \in {4, 6, 9, 11} -> 30
                  [] OTHER -> 31
IsDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)
DaysBefore == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
\* Days since 1 January of year 1
DayNumber(y, m, d) == LET p == y - 1 IN
   p * 365 + p \div 4 - p \div 100 + p \div 400 + DaysBefore[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1
NextDay(t) == IF t[3] < DaysIn(t[1], t[2]) THEN <<t[1], t[2], t[3] + 1>>
              ELSE IF t[2] < 12 THEN <<t[1], t[2] + 1, 1>> ELSE <<t[1] + 1, 1, 1>>
Day(t) == DayNumber(t[1], t[2], t[3])
\* Hours since then; and what is left of the hour, in seconds
Hours(t) == Day(t) * 24 + t[4]
InHour(t) == t[5] * 60 + t[6]
Whole(t) == t[5] = 0 /\ t[6] = 0 /\ t[7] = 0
\* t is not before u
NotBefore(t, u) == \/ Hours(t) > Hours(u)
                   \/ Hours(t) = Hours(u) /\ (InHour(t) > InHour(u) \/ (InHour(t) = InHour(u) /\ t[7] >= u[7]))
IsInstant(t) == IsDate(t[1], t[2], t[3]) /\ t[4] \in 0..23 /\ t[5] \in 0..59 /\ t[6] \in 0..59
=============================================================================

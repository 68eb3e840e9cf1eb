------------------------------ MODULE PointFile ------------------------------
(* Point-spectra files as lines: [k |-> "date", v, ok], [k |-> "point", v],    *)
(* [k |-> "nums", v, bad, tail], [k |-> "blank"], [k |-> "text"]. A nums line  *)
(* with tail ends where the file was cut: its last value may not be whole.     *)
EXTENDS Integers, Sequences, FiniteSets

Nums(x) == x.k = "nums" /\ ~x.bad
\* The line after exactly `need` numbers from line j on, or 0
RECURSIVE After(_, _, _)
After(lines, j, need) ==
  IF need = 0 THEN j
  ELSE IF j > Len(lines) THEN 0
  ELSE IF lines[j].k = "blank" THEN After(lines, j + 1, need)
  ELSE IF ~Nums(lines[j]) \/ Len(lines[j].v) > need THEN 0
  ELSE After(lines, j + 1, need - Len(lines[j].v))
\* The record starting at line i is there, whole; it ends before line EndOf
EndOf(lines, i, count) ==
  IF ~(lines[i].k = "date" /\ lines[i].ok /\ i < Len(lines)) THEN 0
  ELSE IF lines[i + 1].k # "point" THEN 0 ELSE After(lines, i + 2, count)
Whole(lines, i, count) == EndOf(lines, i, count) # 0
\* ... but for its last value, perhaps
Cut(lines, i, count) == LET j == EndOf(lines, i, count) IN j # 0 /\ lines[j - 1].k = "nums" /\ lines[j - 1].tail
Starts(lines, from, count) == SelectSeq([j \in 1..Len(lines) |-> j], LAMBDA j : j >= from /\ Whole(lines, j, count))
RECURSIVE Values(_, _, _)
Values(lines, j, to) == IF j >= to THEN <<>> ELSE IF lines[j].k # "nums" THEN Values(lines, j + 1, to) ELSE lines[j].v \o Values(lines, j + 1, to)
\* The run's date: the first that can be read
Reference(lines, from) == LET S == {j \in from..Len(lines) : lines[j].k = "date" /\ lines[j].ok} IN
                          lines[CHOOSE j \in S : \A m \in S : j <= m].v
=============================================================================

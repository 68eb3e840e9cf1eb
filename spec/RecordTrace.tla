----------------------------- MODULE RecordTrace -----------------------------
(* What a recorded step does to a record: quantities <<path, unit, value>> and *)
(* everything else about it in one text.                                      *)
EXTENDS Record, TraceKit

Gap(u) == IF u \in Temperatures THEN 250 ELSE 0
\* In 1/1000: converting there and back costs 0.2 percent or 0.2 degrees
Close(u, a, b) == Near(a, b, Abs(a) \div 400 + 3 + Gap(u))
\* Converts wants hundredths, and small enough to multiply
Value(a, b, x, y) == IF a = b THEN y = x
                     ELSE Finite(y) /\ IF Abs(x) > 2000000 THEN Converts(a, b, x \div 100, y \div 100, 10)
                                       ELSE Converts(a, b, x \div 10, y \div 10, 100)
SameShape(q, r) == Len(q) = Len(r) /\ \A i \in 1..Len(q) : q[i].path = r[i].path /\ Len(q[i].value) = Len(r[i].value)

To(q, rest, e) ==
  /\ e.rest = rest
  /\ SameShape(q, e.quantities) /\ SameShape(q, e.alone)
  /\ \A i \in 1..Len(q) :
       LET a == q[i] b == e.quantities[i] c == e.alone[i] t == SystemUnit(a.unit, e.sys) IN
       /\ b.unit = t /\ c.unit = t
       /\ Len(a.value) = 1 => Value(a.unit, t, a.value[1], b.value[1]) /\ Near(b.value[1], c.value[1], 1)
Publish(q, rest, e) ==
  /\ e.rest = rest
  /\ SameShape(q, e.quantities)
  /\ \A i \in 1..Len(q) : /\ e.quantities[i].unit = q[i].unit
                          /\ Len(q[i].value) = 1 => Near(e.quantities[i].value[1], q[i].value[1], 1)
\* Wherever a quantity has come back to the unit it set out in, it has its value back
Restored(start, q) == \A i \in 1..Len(q) : q[i].unit = start[i].unit /\ Len(q[i].value) = 1
                         => Close(q[i].unit, start[i].value[1], q[i].value[1])
=============================================================================

------------------------------ MODULE TraceS02 ------------------------------
(* A session is one spectrum: f in 1/10000 Hz, raw directions in 1/10 degree. *)
EXTENDS SpectralGrid, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
Turn == 3600
Fine == 100
OK(e, t) ==
  LET f == t.f  ds == t.ds  en == t.e IN
  CASE e.op = "bins" -> \/ <<e.k[1] + 1, e.k[2] + 1>> \in FreqPairs(f, e.x)
                        \/ e.x < f[1] \/ e.x > f[Len(f)]
    [] e.op = "dirs" -> <<e.th[1] + 1, e.th[2] + 1>> \in DirPairs(ds, e.d, Turn)
    [] e.op = "value" ->
         /\ Finite(e.v)
         /\ \A p \in FreqPairs(f, e.x), q \in DirPairs(ds, e.d, Turn) :
              LET b == Blend(f, ds, en, p, q, e.x, e.d, Turn)  c == Corners(f, en, p, q) IN
              /\ Abs(e.v * b[2] - Fine * b[1]) <= b[2]
              /\ e.v >= Fine * LowOf(c) /\ e.v <= Fine * HighOf(c)
    \* The axes at an index: a node's own value, and halfway between two
    [] e.op = "axis" -> LET n == Len(e.xs)  i == e.i2 \div 2 IN
         IF e.i2 <= 0 THEN e.v = 10 * e.xs[1]
         ELSE IF i + 1 >= n THEN e.v = 10 * e.xs[n]
         ELSE IF e.i2 % 2 = 0 THEN e.v = 10 * e.xs[i + 1] ELSE Near(e.v, 5 * (e.xs[i + 1] + e.xs[i + 2]), 1)
    \* Directions go the short way round, which is either when they are opposite
    [] e.op = "round" -> LET n == Len(e.xs)  i == e.i2 \div 2 IN
         IF e.i2 <= 0 THEN e.v = 10 * e.xs[1]
         ELSE IF i + 1 >= n THEN e.v = 10 * e.xs[n]
         ELSE IF e.i2 % 2 = 0 THEN e.v = 10 * e.xs[i + 1]
         ELSE LET step == ((e.xs[i + 2] - e.xs[i + 1] + (Turn \div 2)) % Turn) - (Turn \div 2)
                  mid == 10 * e.xs[i + 1] + 5 * step
              IN e.v >= 0 /\ e.v <= 10 * Turn /\
                 \E m \in {mid} \cup (IF step = -(Turn \div 2) THEN {mid + 10 * (Turn \div 2)} ELSE {}) :
                    (e.v - m + 1) % (10 * Turn) <= 2
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

------------------------------ MODULE TraceQ01 ------------------------------
(* Energies in 1/1000, r in 1/100, directions in whole degrees; values per     *)
(* unit of energy, times pi, in 1/10000 (as they are, in 1/10000, where the    *)
(* energy is absent or nothing).                                               *)
EXTENDS Rebuild, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]

At(e, t, k, i) == e.v[k + Len(t.rows) * (i - 1)]
RECURSIVE Total(_, _, _, _)
Total(e, t, k, i) == IF i = 0 THEN 0 ELSE At(e, t, k, i) + Total(e, t, k, i - 1)
\* From rounding the sines: half of 1/10000 for each r
Slack(c) == 2 + (c.r1 + c.r2) \div 100
Built(e, t) ==
  LET nk == Len(t.rows) n == Len(t.ds) IN
  /\ Len(e.v) = nk * n
  /\ e.ds = t.ds /\ e.freq = t.freq /\ e.conv = "From" /\ e.date = t.date
  /\ \A k \in 1..nk : LET c == t.rows[k] IN
       /\ \A i \in 1..n : LET v == At(e, t, k, i) IN
            /\ Finite(v) /\ v >= 0
            /\ IF Absent(c) \/ c.e = 0 THEN v = 0 ELSE Near(v, Share(c, t.ds[i]), Slack(c))
       /\ t.even /\ n >= 3 /\ ~Absent(c) /\ c.e # 0 /\ (\A i \in 1..n : Wanted(c, t.ds[i]) >= 0) =>
            Near(2 * Total(e, t, k, n), 10000 * n, n + 2)
       /\ ~Absent(c) /\ c.a1 = c.a2 => \A i, j \in 1..n :
            (t.ds[i] + t.ds[j] - 2 * c.a1) % 360 = 0 => Near(At(e, t, k, i), At(e, t, k, j), 1)
OK(e, t) ==
  CASE e.op = "built" -> Built(e, t)
    \* With other coefficients at one frequency the others keep theirs to the bit
    [] e.op = "alone" -> \A k \in 1..Len(t.rows) : k # e.changed => e.was[k] = e.is[k]
    [] e.op = "records" -> e.same
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

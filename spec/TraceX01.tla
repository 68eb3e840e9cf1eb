------------------------------ MODULE TraceX01 ------------------------------
EXTENDS Linspace, TraceKit
VARIABLES s, l, bad

Ses == Sessions[s]
Ev == Ses.events[l]
\* Bounds are eighths and values thousandths; 125 thousandths to the eighth.
\* Single precision carries 24 bits, over values up to 2000 with the step accumulated.
Value(i) == IF n = 1 THEN Ses.init.a * 125 * 1 ELSE (Ses.init.a * 125 * (n - 1) + (Ses.init.b - Ses.init.a) * 125 * i)
Scale == IF n = 1 THEN 1 ELSE n - 1
Is(v, i) == Near(v * Scale, Value(i), 2 * Scale)
Vals(got) == /\ Len(got) = Len(Ev.val)
             /\ \A k \in 1..Len(got) : Is(Ev.val[k], got[k])
Same(vs, is) == Len(vs) = Len(is) /\ \A k \in 1..Len(vs) : Is(vs[k], is[k])
Gots == {<<>>, <<lo>>, <<hi - 1>>, <<lo + 2>>, <<hi - 2>>}

Step == /\ ~bad /\ l <= Len(Ses.events) /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
        /\ \/ Ev.op = "front" /\ \E got \in Gots : Front(got) /\ Vals(got) = TRUE
           \/ Ev.op = "back" /\ \E got \in Gots : Back(got) /\ Vals(got)
           \/ Ev.op = "skip" /\ \E got \in Gots : Skip(Ev.k, got) /\ Vals(got)
           \/ Ev.op = "skipback" /\ \E got \in Gots : SkipBack(Ev.k, got) /\ Vals(got)
           \/ Ev.op = "len" /\ Look /\ Ev.lo = Left /\ Ev.hi = <<Left>> /\ Ev.len = Left
           \/ Ev.op = "rest" /\ Look /\ (Same(Ev.fwd, Rest) /\ Same(Ev.rev, Rest)) = TRUE
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ ~ENABLED Step
        /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<n, lo, hi, s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE /\ Init(Sessions[s].init.n)
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<n, lo, hi, s, l, bad>>
=============================================================================

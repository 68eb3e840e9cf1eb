------------------------------ MODULE TraceI01 ------------------------------
(* A session is a walk along one table, left to right.                        *)
EXTENDS Interp, TraceKit
VARIABLES at, s, l, bad      \* at: <<position, value>> last looked at, or <<>>
Ses == Sessions[s]
Ev == Ses.events[l]
OK(e, xs, ys) ==
  CASE e.op = "at" -> /\ Finite(e.v) /\ Fits(xs, ys, e.x, e.v) /\ OnLine(xs, ys, e.x, e.v)
                      /\ at # <<>> => Onwards(xs, ys, at[1], at[2], e.x, e.v)
    [] e.op = "knot" -> /\ Finite(e.into) /\ Finite(e.out)
                        /\ Near(e.into, e.out, 5 + 24 * (AbsN(ys[e.k + 1] - ys[e.k]) + AbsN(ys[e.k + 2] - ys[e.k + 1])))
    [] e.op = "many" -> e.many = e.each
    [] e.op = "moved" -> /\ Len(e.base) = Len(e.got)
                         /\ \A i \in 1..Len(e.base) : Near(e.got[i], e.a * e.base[i] + e.b * Fine, 2 + AbsN(e.a))
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init.xs, Ses.init.ys) = TRUE /\ l' = l + 1
        /\ at' = (IF Ev.op = "at" THEN <<Ev.x, Ev.v>> ELSE at) /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init.xs, Ses.init.ys) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<at, s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE /\ at = <<>>
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<at, s, l, bad>>
=============================================================================

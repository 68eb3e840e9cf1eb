------------------------------ MODULE TraceKit ------------------------------
(* What every trace specification shares: the recorded sessions, one per line *)
(* of the trace file, and fixed point comparison.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

\* Codes the driver gives to floats that no integer stands for
NaN == 2000000001
Inf == 2000000002
Big == 2000000000
Finite(x) == x < Big /\ x > -Big

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
\* Within tol of one another
Near(x, y, tol) == Finite(x) /\ Finite(y) /\ x - y <= tol /\ y - x <= tol
\* Sequences of the same length, entry by entry
NearSeq(xs, ys, tol) == /\ Len(xs) = Len(ys)
                        /\ \A i \in 1..Len(xs) : Near(xs[i], ys[i], tol)

Reject(s, l) == PrintT(<<"VIOL", s, l>>)
=============================================================================

------------------------------ MODULE Linspace ------------------------------
(* A range of n evenly spaced values, consumed from both ends. The state is   *)
(* the range of indexes not yet handed out, lo+1 .. hi in 1..n.               *)
EXTENDS Integers, Sequences

VARIABLES n, lo, hi

Init(N) == n = N /\ lo = 0 /\ hi = N

Left == hi - lo

\* Each action also yields `got`: the indexes handed out (0-based), or <<>>
Front(got)  == /\ IF Left > 0 THEN got = <<lo>> /\ lo' = lo + 1
                              ELSE got = <<>> /\ lo' = lo
               /\ UNCHANGED <<n, hi>>
Back(got)   == /\ IF Left > 0 THEN got = <<hi - 1>> /\ hi' = hi - 1
                              ELSE got = <<>> /\ hi' = hi
               /\ UNCHANGED <<n, lo>>
\* Passing over k elements to the next; what is passed over is gone
Skip(k, got) == /\ IF Left > k THEN got = <<lo + k>> /\ lo' = lo + k + 1
                               ELSE got = <<>> /\ lo' = hi
                /\ UNCHANGED <<n, hi>>
SkipBack(k, got) == /\ IF Left > k THEN got = <<hi - 1 - k>> /\ hi' = hi - 1 - k
                                   ELSE got = <<>> /\ hi' = lo
                    /\ UNCHANGED <<n, lo>>
Look == UNCHANGED <<n, lo, hi>>
Rest == [i \in 1..Left |-> lo + i - 1]

TypeOK == 0 <= lo /\ lo <= hi /\ hi <= n
=============================================================================

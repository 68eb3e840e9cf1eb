----------------------------- MODULE MCLinspace -----------------------------
(* Design model: every history of at most Depth calls on ranges of 0..MaxN.   *)
EXTENDS Linspace, TLC, Json, SequencesExt, FiniteSets
CONSTANTS MaxN, Depth
VARIABLES front, back, passed, ops

vars == <<n, lo, hi, front, back, passed, ops>>
MCInit == \E N \in 0..MaxN : Init(N) /\ front = <<>> /\ back = <<>> /\ passed = {} /\ ops = <<>>

Went == {i \in 0..(n - 1) : (i >= lo /\ i < lo') \/ (i < hi /\ i >= hi')}
Gots == {<<>>} \union {<<i>> : i \in 0..(n - 1)}
Do(op) == ops' = Append(ops, op)
MCNext == /\ Len(ops) < Depth
          /\ \E got \in Gots :
             \/ Front(got) /\ Do("front") /\ front' = front \o got /\ UNCHANGED <<back, passed>>
             \/ Back(got) /\ Do("back") /\ back' = got \o back /\ UNCHANGED <<front, passed>>
             \/ Skip(2, got) /\ Do("skip") /\ front' = front \o got
                /\ passed' = passed \union (Went \ ToSet(got)) /\ UNCHANGED back
             \/ SkipBack(1, got) /\ Do("skipback") /\ back' = got \o back
                /\ passed' = passed \union (Went \ ToSet(got)) /\ UNCHANGED front
             \/ got = <<>> /\ Look /\ Do("len") /\ UNCHANGED <<front, back, passed>>
             \/ got = <<>> /\ Look /\ Do("rest") /\ UNCHANGED <<front, back, passed>>
MCSpec == MCInit /\ [][MCNext]_vars

Ascending(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
\* Each element is handed out at most once, in order at either end, and whatever is neither
\* handed out nor passed over is still to come: nothing is lost and nothing repeated.
OnceEach == /\ Ascending(front \o Rest \o back)
            /\ ToSet(front) \union ToSet(back) \union passed \union ToSet(Rest) = 0..(n - 1)
            /\ Len(front) + Len(back) + Cardinality(passed) + Left = n
StaysExhausted == [][Left = 0 => Left' = 0]_vars
Shrinks == [][Left' <= Left]_vars

Export == Len(ops) = Depth => PrintT("SCEN " \o ToJson([n |-> n, ops |-> ops]))
=============================================================================

------------------------------- MODULE MCDesk --------------------------------
(* Every way of going about a forecast of Records records in up to Most steps:  *)
(* reading any of it, converting, storing, telling, following. A batch holds    *)
(* what its records look like in their units, as text once stored; the notes    *)
(* say what was told of which record and which identities its swells were given.*)
EXTENDS Desk, Json
CONSTANTS Records, Batches, Most, Seas, Max, Weight, Ways
VARIABLES sea, desk, held, notes, follows, ops
vars == <<sea, desk, held, notes, follows, ops>>
S(d, p) == [dir |-> d, per |-> p]
\* The seas a step of the forecast may show
Choices == << <<>>, <<S(10, 1200)>>, <<S(350, 1200), S(200, 700)>>, <<S(200, 700), S(15, 1100)>>, <<S(20, 1200), S(5, 1200)>> >>
Init == /\ sea \in [1..Records -> {Choices[i] : i \in Seas}]
        /\ desk = <<>> /\ held = <<>> /\ notes = {} /\ follows = {} /\ ops = <<>>
\* A record held: its depth in its units (hundredths), its swells
Depth(r) == 1000 * r
Feet(x) == (x * 3281) \div 1000
Meters(x) == (x * 1000) \div 3281
Look(r) == [depth |-> Depth(r), swells |-> sea[r]]
More == Len(ops) < Most
Do(o) == ops' = Append(ops, o) /\ UNCHANGED sea
Open(i, j) == /\ More /\ Len(desk) < Batches /\ Do([op |-> "open", b |-> Len(desk) + 1, x |-> i, y |-> j])
              /\ desk' = Append(desk, Opened(i, j)) /\ held' = Append(held, [k \in 1..(j - i + 1) |-> Look(i + k - 1)])
              /\ UNCHANGED <<notes, follows>>
Convert(b, u) == /\ More /\ desk[b].units # u /\ Do([op |-> "convert", b |-> b, x |-> IF u = "English" THEN 1 ELSE 0, y |-> 0])
                 /\ desk' = [desk EXCEPT ![b] = Converted(@, u)]
                 /\ held' = [held EXCEPT ![b] = [k \in DOMAIN @ |-> [@[k] EXCEPT !.depth = IF u = "English" THEN Feet(@) ELSE Meters(@)]]]
                 /\ UNCHANGED <<notes, follows>>
Store(b) == /\ More /\ desk[b].stored = 0 /\ Do([op |-> "store", b |-> b, x |-> 0, y |-> 0])
            /\ desk' = [desk EXCEPT ![b] = Kept1(@)] /\ UNCHANGED <<held, notes, follows>>
Tell(b, k) == /\ More /\ Do([op |-> "tell", b |-> b, x |-> k, y |-> 0])
              /\ notes' = notes \union {[rec |-> Rec(desk[b], k), swells |-> held[b][k].swells]}
              /\ UNCHANGED <<desk, held, follows>>
Follow(b, m) == /\ More /\ Do([op |-> "follow", b |-> b, x |-> m, y |-> 0])
                /\ \E f \in {Followed([k \in 1..m |-> held[b][k].swells], m, Max, Weight)} :
                     follows' = follows \union {[from |-> desk[b].from, rec |-> Rec(desk[b], k), ids |-> f.steps[k]] : k \in 1..m}
                /\ UNCHANGED <<desk, held, notes>>
Next == \/ \E i, j \in 1..Records : i <= j /\ Open(i, j)
        \/ \E b \in DOMAIN desk : \/ \E u \in {"Metric", "English"} : Convert(b, u)
                                  \/ Store(b)
                                  \/ \E k \in 1..Size(desk[b]) : Tell(b, k) \/ Follow(b, k)
Spec == Init /\ [][Next]_vars

Agreed == Agree(notes)
IsCausal == Causal(follows)
\* What is told is what is in the file
True == \A n \in notes : n.swells = sea[n.rec]
\* The numbers held come back when the units do, but for their last place
Depths == \A b \in DOMAIN desk : \A k \in DOMAIN held[b] :
  LET d == held[b][k].depth  m == IF desk[b].units = "English" THEN Meters(d) ELSE d IN
  m - Depth(Rec(desk[b], k)) <= 6 /\ Depth(Rec(desk[b], k)) - m <= 6
\* The identities keep the rule of tracking at every step, whichever record it starts from
Given(f) == WithIds(sea[f.rec], f.ids)
Used(f) == UNION {{g.ids[k] : k \in DOMAIN g.ids} : g \in {g \in follows : g.from = f.from /\ g.rec < f.rec}}
Rule == \A f, g \in follows : f.from = g.from /\ g.rec = f.rec + 1 =>
  StepOK(Given(f), Used(g), sea[g.rec], g.ids, Max, Weight)
Export == (Ways /\ Len(ops) = Most /\ \A r \in 1..Records : sea[r] = Choices[2]) => PrintT("SCEN " \o ToJson([n |-> Records, ops |-> ops]))
=============================================================================

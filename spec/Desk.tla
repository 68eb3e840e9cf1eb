-------------------------------- MODULE Desk --------------------------------
(* A forecast file on the desk. A batch is a reading of some of its records in  *)
(* a row: [from, to, units, stored], stored counting how often it was written   *)
(* down as JSON and read back since. What a batch has to tell of a record of    *)
(* the file depends on the record alone; following swells through time depends  *)
(* on the records from the first of the batch to the one looked at.             *)
EXTENDS Tracking
Opened(i, j) == [from |-> i, to |-> j, units |-> "Metric", stored |-> 0]
Converted(b, u) == [b EXCEPT !.units = u]
Kept1(b) == [b EXCEPT !.stored = @ + 1]
Size(b) == b.to - b.from + 1
\* The record of the file that is the k-th of the batch
Rec(b, k) == b.from + k - 1

\* Following as a function: every swell claims the predecessor that suits it best (the earliest of
\* equals), the best claims are granted first, the rest get identities never used before.
Claim(p, c, max, w) == LET B == Best(p, c, max, w) IN
  IF B = {} THEN 0 ELSE CHOOSE i \in B : \A j \in B : i <= j
Strength(p, c, k, max, w) == LET i == Claim(p, c[k], max, w) IN IF i = 0 THEN 2 * Limit ELSE Score(p[i], c[k], max, w)
Before(p, c, k, m, max, w) == \/ Strength(p, c, k, max, w) < Strength(p, c, m, max, w)
                              \/ Strength(p, c, k, max, w) = Strength(p, c, m, max, w) /\ k < m
RECURSIVE Granted(_, _, _, _, _, _, _)
Granted(p, c, left, ids, next, max, w) ==
  IF left = {} THEN [ids |-> ids, next |-> next]
  ELSE LET k == CHOOSE k \in left : \A m \in left \ {k} : Before(p, c, k, m, max, w)
           i == Claim(p, c[k], max, w)
           free == i # 0 /\ Strength(p, c, k, max, w) <= Limit /\ \A m \in DOMAIN ids : ids[m] # p[i].id
       IN Granted(p, c, left \ {k}, [ids EXCEPT ![k] = IF free THEN p[i].id ELSE next], IF free THEN next ELSE next + 1, max, w)
WithIds(c, ids) == [k \in DOMAIN c |-> [id |-> ids[k], dir |-> c[k].dir, per |-> c[k].per]]
RECURSIVE Followed(_, _, _, _)
\* seas: sequence of steps, each a sequence of [dir, per]; the ids of all steps and the next free one
Followed(seas, k, max, w) ==
  IF k = 1 THEN [steps |-> <<[j \in DOMAIN seas[1] |-> j]>>, next |-> Len(seas[1]) + 1]
  ELSE LET before == Followed(seas, k - 1, max, w)
           g == Granted(WithIds(seas[k - 1], before.steps[k - 1]), seas[k], DOMAIN seas[k], [j \in DOMAIN seas[k] |-> 0 - 1], before.next, max, w)
       IN [steps |-> Append(before.steps, g.ids), next |-> g.next]

\* What the notes of different readings say of one thing
Agree(notes) == \A a, b \in notes : a.rec = b.rec => a.swells = b.swells
\* ids are noted as [from, rec, ids]: the batch's first record, the record, the ids of its swells
Causal(follows) == \A a, b \in follows : a.from = b.from /\ a.rec = b.rec => a.ids = b.ids
=============================================================================

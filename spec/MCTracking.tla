----------------------------- MODULE MCTracking ------------------------------
(* Every history of up to Steps steps of up to Swells swells over Dirs and     *)
(* Periods: claims are granted one at a time, the best first.                  *)
EXTENDS Tracking, Json
CONSTANTS Dirs, Periods, Swells, Steps, Max, Weight, Share
VARIABLES hist, prev, used, cur, claims, ids
vars == <<hist, prev, used, cur, claims, ids>>

Swell == [dir : Dirs, per : Periods]
Lists == UNION {[1..n -> Swell] : n \in 0..Swells}
None == 0 - 1
Init == /\ cur \in Lists /\ hist = <<cur>> /\ prev = <<>>
        /\ ids = [k \in DOMAIN cur |-> 7 - 2 * k] /\ used = {ids[k] : k \in DOMAIN cur} /\ claims = {}
With(c, i) == [k \in DOMAIN c |-> [id |-> i[k], dir |-> c[k].dir, per |-> c[k].per]]
Fresh(u) == CHOOSE x \in 0..(Swells * Steps + 6) : x \notin u /\ \A y \in u : y < x
Settled == claims = {}

\* A new step arrives: every swell claims the predecessor that suits it best
Arrive == /\ Settled /\ Len(hist) < Steps
          /\ \E c \in Lists :
               LET p == With(cur, ids) IN
               /\ hist' = Append(hist, c) /\ prev' = p /\ cur' = c
               /\ ids' = [k \in DOMAIN c |-> None]
               /\ claims' = {<<k, IF Best(p, c[k], Max, Weight) = {} THEN 0
                                  ELSE CHOOSE i \in Best(p, c[k], Max, Weight) : TRUE>> : k \in DOMAIN c}
          /\ UNCHANGED used
Value(q) == IF q[2] = 0 THEN 2 * Limit ELSE Score(prev[q[2]], cur[q[1]], Max, Weight)
\* The best claim left is granted, if its predecessor is still to be had
Grant == \E q \in claims :
           /\ \A r \in claims : Value(q) <= Value(r)
           /\ claims' = claims \ {q}
           /\ LET free == q[2] # 0 /\ Value(q) <= Limit /\ \A m \in DOMAIN ids : ids[m] # prev[q[2]].id
                  id == IF free THEN prev[q[2]].id ELSE Fresh(used)
              IN ids' = [ids EXCEPT ![q[1]] = id] /\ used' = used \union {id}
           /\ UNCHANGED <<hist, prev, cur>>
Next == Arrive \/ Grant
Spec == Init /\ [][Next]_vars

KeepsTheRule == (Settled /\ Len(hist) > 1) =>
  LET old == used \ {ids[k] : k \in {m \in DOMAIN ids : Inherits(prev, ids[m]) = {}}} IN
  StepOK(prev, old, cur, ids, Max, Weight)
UniqueInStep == Settled => Distinct(ids)
OnlyWithinTheAngle == Settled => \A k \in DOMAIN ids : \A i \in Inherits(prev, ids[k]) : Allowed(prev[i], cur[k], Max)
\* An identity that leaves the series does not come back
Gone == {x \in used : x \notin {prev[i].id : i \in DOMAIN prev} \union {ids[k] : k \in DOMAIN ids}}
StaysGone == [][\A x \in Gone : \A k \in DOMAIN ids' : ids'[k] # x]_vars
UsedGrows == [][used \subseteq used']_vars
RECURSIVE Sum(_, _)
Sum(h, k) == IF k > Len(h) THEN 0
             ELSE Sum(h, k + 1) * 7 + Len(h[k]) + (IF Len(h[k]) = 0 THEN 0 ELSE h[k][1].dir + h[k][1].per \div 100 + (IF Len(h[k]) > 1 THEN 3 * h[k][2].dir + h[k][2].per \div 50 ELSE 0))
Export == (Len(hist) = Steps /\ Settled /\ Sum(hist, 1) % Share = 0) => PrintT("SCEN " \o ToJson([hist |-> hist, max |-> Max, w |-> Weight]))
=============================================================================

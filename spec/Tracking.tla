------------------------------ MODULE Tracking ------------------------------
(* Tracking swell partitions through time. A swell is [dir, per]: whole        *)
(* degrees and hundredths of a second. A step of the series pairs each swell   *)
(* of the step before (with its identity) with at most one of this step.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

AbsT(x) == IF x < 0 THEN -x ELSE x
Apart(a, b) == LET d == AbsT(a - b) % 360 IN IF d > 180 THEN 360 - d ELSE d

\* Score of a pair, in thousandths: the turn as a share of the allowed angle, and the change of
\* period against the change expected of a dispersing swell (w: its inverse, in hundredths per
\* second). Lower is better.
Score(a, b, max, w) == (1000 * Apart(a.dir, b.dir)) \div max + (AbsT(a.per - b.per) * w) \div 10
Allowed(a, b, max) == Apart(a.dir, b.dir) <= max
Limit == 999000       \* no better than this is no match
Tol == 3              \* two scores this close are the same score

\* prev: the step before, a sequence of [id, dir, per]; cur: a sequence of [dir, per]
Eligible(prev, c, max) == {i \in DOMAIN prev : Allowed(prev[i], c, max)}
Best(prev, c, max, w) ==
  LET E == Eligible(prev, c, max) IN
  {i \in E : \A j \in E : Score(prev[i], c, max, w) <= Score(prev[j], c, max, w) + Tol}

\* The rule a step has to keep, whatever the order the swells are looked at in.
\* ids[k]: the identity of swell k of this step; used: every identity given so far.
Inherits(prev, id) == {i \in DOMAIN prev : prev[i].id = id}
SwellOK(prev, used, cur, ids, k, max, w) ==
  IF Inherits(prev, ids[k]) # {}
  THEN \E i \in Inherits(prev, ids[k]) \cap Best(prev, cur[k], max, w) :
         Score(prev[i], cur[k], max, w) <= Limit + Tol
  ELSE /\ ids[k] \notin used
       /\ \/ Eligible(prev, cur[k], max) = {}
          \/ \E i \in Best(prev, cur[k], max, w) :
               \/ Score(prev[i], cur[k], max, w) >= Limit - Tol
               \/ \E m \in DOMAIN cur \ {k} :
                    /\ ids[m] = prev[i].id
                    /\ Score(prev[i], cur[m], max, w) <= Score(prev[i], cur[k], max, w) + Tol
Distinct(ids) == \A i, j \in DOMAIN ids : i # j => ids[i] # ids[j]
StepOK(prev, used, cur, ids, max, w) ==
  /\ DOMAIN ids = DOMAIN cur /\ Distinct(ids)
  /\ \A k \in DOMAIN cur : SwellOK(prev, used, cur, ids, k, max, w)

\* What is left of the rule when scores mean nothing (no time passed, or a period missing)
LooseOK(prev, used, cur, ids, max) ==
  /\ DOMAIN ids = DOMAIN cur /\ Distinct(ids)
  /\ \A k \in DOMAIN cur : \/ ids[k] \notin used
                           \/ \E i \in Inherits(prev, ids[k]) : Allowed(prev[i], cur[k], max)
=============================================================================

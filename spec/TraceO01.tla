------------------------------ MODULE TraceO01 -------------------------------
(* A session is one file gone about in some way: t.dates (minutes), t.depths    *)
(* (cm) of its records. What is told of a record the first time is held          *)
(* against everything told of it later, however the later reading came about.    *)
EXTENDS Desk, Filter, TraceKit
VARIABLES desk, truth, seen, looks, s, l, bad
vars == <<desk, truth, seen, looks, s, l, bad>>
Ses == Sessions[s]
Ev == Ses.events[l]
T == Ses.init
\* Circle distance in whole degrees
Turned(a, b) == Apart(a, b) <= 1
SameSwell(a, b) == /\ a.id = b.id /\ Near(a.tp, b.tp, 3) /\ Turned(a.dir, b.dir)
                   /\ Near(a.hs, b.hs, 2 + b.hs \div 2000) /\ Near(a.energy, b.energy, 2 + b.energy \div 1000)
ById(C) == {C[j].id : j \in 1..Len(C)}
\* The same swells; in the same order but where two are equally strong
SameSwells(C, D) ==
  /\ Len(C) = Len(D) /\ ById(C) = ById(D) /\ Cardinality(ById(C)) = Len(C)
  /\ \A i \in 1..Len(C) : \E j \in 1..Len(D) : SameSwell(C[i], D[j]) /\ (i # j => Near(D[i].energy, D[j].energy, 2 + D[j].energy \div 1000))
SameTold(a, b) == SameSwell(a.summary, b.summary) /\ SameSwells(a.swells, b.swells)
Reading(b, e) ==
  /\ Len(e.dates) = Size(b) /\ Len(e.refs) = Size(b) /\ Len(e.depths) = Size(b)
  /\ \A k \in 1..Size(b) :
       /\ e.dates[k] = T.dates[Rec(b, k)] /\ e.refs[k] = T.dates[b.from]
       /\ LET d == T.depths[Rec(b, k)] IN
          IF b.units = "English" THEN Near(e.depths[k], (d \div 1000) * 3281 + ((d % 1000) * 3281) \div 1000, 3 + d \div 5000) ELSE Near(e.depths[k], d, 1)
  /\ e.unit = (IF b.units = "English" THEN "Feet" ELSE "Meters")
B(e) == desk[e.b]
After(e) == CASE e.op = "open" -> Opened(e.x, e.y)
              [] e.op = "convert" -> Converted(B(e), IF e.x = 1 THEN "English" ELSE "Metric")
              [] e.op = "store" -> Kept1(B(e))
Class(b, e) == IF b.stored = 0 THEN 0 ELSE e.b * 100 + b.stored
Record(e) == Rec(B(e), e.x)
Prev(st) == [k \in 1..Len(st.cur) |-> [id |-> st.ids[k], dir |-> st.cur[k].dir, per |-> st.cur[k].per]]
UsedBy(steps, k) == UNION {{steps[m].ids[j] : j \in 1..Len(steps[m].ids)} : m \in 1..k}
FollowOK(e) ==
  /\ Len(e.steps) = e.x /\ e.same
  /\ e.steps[1].ids = e.own
  /\ \A k \in 2..Len(e.steps) : \A p \in {Prev(e.steps[k - 1])} : \A u \in {UsedBy(e.steps, k - 1)} :
       StepOK(p, u, e.steps[k].cur, e.steps[k].ids, e.max, e.w)
  \* The swells followed are the ones told
  /\ \A k \in 1..Len(e.steps) : truth[Rec(B(e), k)] # <<>> =>
       LET told == truth[Rec(B(e), k)][1].swells IN
       /\ Len(told) = Len(e.steps[k].cur)
       /\ \A j \in 1..Len(told) : \E i \in 1..Len(told) : Turned(told[j].dir, e.steps[k].cur[i].dir) /\ Near(told[j].tp, 10 * e.steps[k].cur[i].per, 9)
  /\ \A f \in seen : f.from = B(e).from /\ f.class = Class(B(e), e) /\ f.rec - B(e).from + 1 <= e.x => f.ids = e.steps[f.rec - B(e).from + 1].ids
OK(e) ==
  CASE e.op = "open" -> e.b = Len(desk) + 1 /\ \A b \in {After(e)} : Reading(b, e)
    [] e.op \in {"convert", "store"} -> \A b \in {After(e)} : Reading(b, e)
    [] e.op = "tell" -> /\ e.units = "Meters" /\ e.told.all
                        /\ truth[Record(e)] # <<>> => SameTold(e.told, truth[Record(e)][1])
    \* The summary taken to feet (and heights back to meters by the definition of the foot)
    [] e.op = "feet" -> /\ e.units = "Feet" /\ e.told.all
                        /\ truth[Record(e)] # <<>> => SameTold(e.told, truth[Record(e)][1])
    [] e.op = "keep" -> /\ e.kept = [j \in 1..Len(Kept(e.printed)) |-> e.ids[Kept(e.printed)[j]]]
                        /\ truth[Record(e)] # <<>> => {e.ids[j] : j \in 1..Len(e.ids)} = ById(truth[Record(e)][1].swells)
    \* A swell without the rest of the sea is the same swell, and all there is
    [] e.op = "apart" -> /\ \A j \in 1..Len(e.each) : LET a == e.each[j] IN
                              /\ a.all /\ Len(a.swells) = 1
                              /\ LET w == a.swells[1] IN Near(w.hs, a.summary.hs, 2 + w.hs \div 2000) /\ Near(w.tp, a.summary.tp, 3) /\ Turned(w.dir, a.summary.dir)
                         /\ truth[Record(e)] # <<>> => SameSwells([j \in 1..Len(e.each) |-> e.each[j].swells[1]], truth[Record(e)][1].swells)
    [] e.op = "follow" -> FollowOK(e)
    \* What else a spectrum shows: its range, its sums, its picture
    [] e.op = "look" -> looks[Record(e)] # <<>> => NearSeq(e.view, looks[Record(e)][1], 2)
    [] OTHER -> FALSE
Apply(e) ==
  /\ desk' = CASE e.op = "open" -> Append(desk, After(e))
               [] e.op \in {"convert", "store"} -> [desk EXCEPT ![e.b] = After(e)]
               [] OTHER -> desk
  /\ truth' = IF e.op \in {"tell", "feet"} /\ truth[Record(e)] = <<>> THEN [truth EXCEPT ![Record(e)] = <<e.told>>] ELSE truth
  /\ looks' = IF e.op = "look" /\ looks[Record(e)] = <<>> THEN [looks EXCEPT ![Record(e)] = <<e.view>>] ELSE looks
  /\ seen' = IF e.op = "follow" THEN seen \union {[from |-> B(e).from, class |-> Class(B(e), e), rec |-> Rec(B(e), k), ids |-> e.steps[k].ids] : k \in 1..e.x} ELSE seen
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = TRUE /\ l' = l + 1 /\ Apply(Ev) /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<desk, truth, seen, looks, s, l>>
TraceInit == /\ s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE /\ desk = <<>> /\ seen = {}
             /\ truth = [r \in 1..Len(Sessions[s].init.dates) |-> <<>>] /\ looks = [r \in 1..Len(Sessions[s].init.dates) |-> <<>>]
TraceSpec == TraceInit /\ [][Step \/ Fail]_vars
=============================================================================

------------------------------ MODULE Immersion ------------------------------
(* Partitioning a spectrum by immersion (Vincent & Soille, as in WAVEWATCH III *)
(* w3partmd): the inverted spectrum is flooded level by level from its peaks.  *)
(*                                                                             *)
(* A grid has w frequencies (not periodic) and h directions (periodic); cell   *)
(* c in 0..w*h-1 is column c % w of row c \div w.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MASK  == -2
INIT  == -1
SHED  == 0       \* where two floods meet

Cells(w, h) == 0..(w * h - 1)
\* The neighbours in the order in which floods are considered
Neighbours(w, h, c) ==
  LET i == c % w
      j == c \div w
      up == ((j + h - 1) % h) * w
      dn == ((j + 1) % h) * w
      l == i # 0
      r == i # w - 1
      one(b, x) == IF b THEN <<x>> ELSE <<>>
  IN one(l, c - 1) \o one(r, c + 1) \o <<up + i>> \o <<dn + i>>
     \o one(l, up + i - 1) \o one(r, up + i + 1) \o one(l, dn + i - 1) \o one(r, dn + i + 1)
Grid(w, h) == TLCEval([c \in Cells(w, h) |-> Neighbours(w, h, c)])
Around(nb, c) == {nb[c][k] : k \in DOMAIN nb[c]}

\* Level of each cell, 1 the highest energy, `levels` the lowest. Round half up; the data given
\* to it has no halves.
LevelOf(v, min, max, levels) ==
  IF max = min THEN 1
  ELSE LET l == 1 + (2 * (max - v) * (levels - 1) + (max - min)) \div (2 * (max - min))
       IN IF l < 1 THEN 1 ELSE IF l > levels THEN levels ELSE l

\* TLC keeps the value of what a set is built over, and works out anew what a LET or an argument
\* stands for: steps of a recursion are therefore bound as members of singleton sets
One(S) == CHOOSE x \in S : TRUE

---------------------------------------------------------------------------
(* One level of the flood. st = [lab: cell -> label, n: labels used so far]   *)
At(lvl, k) == TLCEval({c \in DOMAIN lvl : lvl[c] = k})

\* The cells of a level that already touch a flood or a shed start the queue
Touching(lab, nb, S) == TLCEval({c \in S : \E x \in Around(nb, c) : lab[x] >= 0})

\* The label a cell takes from its neighbours in `from` (labelled before it), looked at in order
RECURSIVE Take(_, _, _, _, _)
Take(lab, from, ns, k, mine) ==
  IF k > Len(ns) THEN mine
  ELSE LET x == ns[k]
           next == IF x \notin from \/ lab[x] < 0 THEN mine
                   ELSE IF lab[x] > 0
                        THEN IF mine \in {MASK, SHED} THEN lab[x] ELSE IF mine # lab[x] THEN SHED ELSE mine
                        ELSE IF mine = MASK THEN SHED ELSE mine
       IN Take(lab, from, ns, k + 1, next)

\* One ring: every queued cell takes its label from the cells labelled before this ring
Ring(lab, nb, queue) ==
  LET done == TLCEval(DOMAIN lab \ queue)
  IN TLCEval([c \in DOMAIN lab |-> IF c \in queue THEN Take(lab, done, nb[c], 1, MASK) ELSE lab[c]])
\* and the masked cells next to it are queued for the next
NextRing(lab, nb, queue, level) == TLCEval({c \in level \ queue : lab[c] = MASK /\ Around(nb, c) \cap queue # {}})

\* What is masked and cannot be reached is new: each connected piece is a peak of its own
RECURSIVE Ripple(_, _, _, _)
Ripple(nb, edge, S, inside) ==
  One({IF more = {} THEN S ELSE Ripple(nb, more, more \union S, inside)
       : more \in {TLCEval((UNION {Around(nb, c) : c \in edge} \cap inside) \ S)}})
Spread(nb, S, inside) == One({Ripple(nb, x, x, inside) : x \in {TLCEval(S)}})
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
NewPiece(lab, nb) == LET m == TLCEval({c \in DOMAIN lab : lab[c] = MASK}) IN TLCEval(Spread(nb, {Least(m)}, m))

Masked(lab, S) == TLCEval([c \in DOMAIN lab |-> IF c \in S THEN MASK ELSE lab[c]])
AnyMask(lab) == \E c \in DOMAIN lab : lab[c] = MASK

RECURSIVE Rings(_, _, _, _)
Rings(lab, nb, queue, level) ==
  IF queue = {} THEN lab
  ELSE One({One({Rings(after, nb, more, level) : more \in {NextRing(after, nb, queue, level)}})
            : after \in {Ring(lab, nb, queue)}})
RECURSIVE Pieces(_, _, _)
Pieces(lab, n, nb) ==
  IF ~AnyMask(lab) THEN [lab |-> lab, n |-> n]
  ELSE One({One({Pieces(after, n + 1, nb)
                : after \in {TLCEval([c \in DOMAIN lab |-> IF c \in p THEN n + 1 ELSE lab[c]])}})
            : p \in {NewPiece(lab, nb)}})

Level(st, nb, level) ==
  One({One({Pieces(r, st.n, nb) : r \in {Rings(m, nb, Touching(m, nb, level), level)}})
       : m \in {Masked(st.lab, level)}})
RECURSIVE Levels(_, _, _, _)
Levels(st, nb, lvl, todo) ==
  IF todo = {} THEN st
  ELSE One({One({Levels(after, nb, lvl, todo \ {k}) : after \in {Level(st, nb, At(lvl, k))}}) : k \in {Least(todo)}})
Flood(nb, lvl) == Levels([lab |-> [c \in DOMAIN lvl |-> INIT], n |-> 0], nb, lvl, {lvl[c] : c \in DOMAIN lvl})

---------------------------------------------------------------------------
(* Sheds join the neighbouring partition closest in energy, working inwards.  *)
AbsI(x) == IF x < 0 THEN -x ELSE x
Sheds(lab) == {c \in DOMAIN lab : lab[c] = SHED}
\* The labels a shed cell may take; {} if it has only sheds around it
Offers(lab, nb, data, c) ==
  One({{lab[x] : x \in {y \in S : \A z \in S : AbsI(data[c] - data[y]) <= AbsI(data[c] - data[z])}}
       : S \in {TLCEval({x \in Around(nb, c) : lab[x] # SHED})}})
\* All that can do so join at once; `pick` names the choice
JoinBy(lab, nb, data, pick) ==
  TLCEval([c \in DOMAIN lab |-> IF lab[c] = SHED /\ Offers(lab, nb, data, c) # {} THEN pick[c] ELSE lab[c]])
\* final is reachable by joining
RECURSIVE JoinsTo(_, _, _, _)
JoinsTo(lab, nb, data, final) ==
  IF Sheds(lab) = {} THEN lab = final
  ELSE /\ \A c \in Sheds(lab) : LET o == Offers(lab, nb, data, c) IN o = {} \/ final[c] \in o
       /\ \E c \in Sheds(lab) : Offers(lab, nb, data, c) # {}
       /\ \A after \in {JoinBy(lab, nb, data, final)} : JoinsTo(after, nb, data, final)

---------------------------------------------------------------------------
(* What a partitioning must be, whatever the flood did.                       *)
Uses(lab, n) == {lab[c] : c \in DOMAIN lab} = 1..n
Connected(lab, nb, k) == \A S \in {TLCEval({c \in DOMAIN lab : lab[c] = k})} : Spread(nb, {Least(S)}, S) = S
AllConnected(lab, nb, n) == \A k \in 1..n : Connected(lab, nb, k)
Valid(lab, nb, n) == Uses(lab, n) /\ AllConnected(lab, nb, n)
\* Peaks: connected plateaus with no higher (lower numbered) neighbour
RECURSIVE CountPeaks(_, _, _)
CountPeaks(lvl, nb, todo) ==
  IF todo = {} THEN 0
  ELSE One({(IF \A x \in p : \A y \in Around(nb, x) : lvl[y] >= lvl[x] THEN 1 ELSE 0) + CountPeaks(lvl, nb, todo \ p)
            : p \in UNION {{Spread(nb, {c}, At(lvl, lvl[c]))} : c \in {Least(todo)}}})
Peaks(lvl, nb) == CountPeaks(lvl, nb, DOMAIN lvl)
=============================================================================

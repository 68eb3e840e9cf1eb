------------------------------ MODULE TraceW02 ------------------------------
(* Every partitioning the code makes is one the flood makes.                  *)
EXTENDS Immersion, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
MinMax(d) == LET S == {d[i] : i \in 1..Len(d)} IN
             <<CHOOSE x \in S : \A y \in S : x <= y, CHOOSE x \in S : \A y \in S : x >= y>>
OK(e) ==
  CASE e.op = "partition" ->
         /\ Len(e.labels) = e.w * e.h
         /\ \A C \in {Cells(e.w, e.h)}, mm \in {MinMax(e.data)} :
            \A data \in {TLCEval([c \in C |-> e.data[c + 1]])}, nb \in {Grid(e.w, e.h)},
               lab \in {TLCEval([c \in C |-> e.labels[c + 1]])} :
            \A lvl \in {TLCEval([c \in C |-> LevelOf(data[c], mm[1], mm[2], e.levels)])} :
            \A f \in {Flood(nb, lvl)} :
              /\ e.count = f.n + 1
              /\ f.n = Peaks(lvl, nb)
              /\ JoinsTo(f.lab, nb, data, lab)
    \* Next to one another: across a corner too, around the directions, never around the frequencies
    [] e.op = "near" ->
         /\ Len(e.near) = e.w * e.h
         /\ \A c \in Cells(e.w, e.h) :
              {e.near[c + 1][j] : j \in 1..Len(e.near[c + 1])} \ {c} = {Neighbours(e.w, e.h, c)[j] : j \in 1..Len(Neighbours(e.w, e.h, c))} \ {c}
    \* Smoothed over less than a cell: the flood of the shades, sheds join by the energies
    [] e.op = "sharp" ->
         /\ Len(e.labels) = e.w * e.h
         /\ \A C \in {Cells(e.w, e.h)} :
            \A data \in {TLCEval([c \in C |-> e.data[c + 1]])}, nb \in {Grid(e.w, e.h)},
               lab \in {TLCEval([c \in C |-> e.labels[c + 1]])} :
            \A lvl \in {TLCEval([c \in C |-> LevelOf(e.shade[c + 1], 0, 255, e.levels)])} :
            \A f \in {Flood(nb, lvl)} :
              /\ e.count = f.n + 1
              /\ JoinsTo(f.lab, nb, data, lab)
    \* Ridges along an axis: every cell along it is in the same partition
    [] e.op = "ridges" ->
         /\ Len(e.labels) = e.w * e.h
         /\ \A c \in Cells(e.w, e.h) :
              e.labels[c + 1] = e.labels[1 + (IF e.along = "direction" THEN c % e.w ELSE (c \div e.w) * e.w)]
         /\ {e.labels[c] : c \in 1..Len(e.labels)} = 1..(e.count - 1)
    \* Ripples of one cell are a partition each (or nearly) unless they are smoothed
    [] e.op = "ripples" -> /\ e.smooth >= 1
                          /\ e.smooth <= 3 + e.plain \div 16
                          /\ 4 * e.smooth <= e.plain
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

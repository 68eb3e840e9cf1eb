----------------------------- MODULE MCPointFile -----------------------------
(* Design model: a file of a few records is damaged line by line, then read    *)
(* line by line with one line of lookahead; what comes out is exactly the      *)
(* whole records. The damages are exported.                                    *)
EXTENDS PointFile, TLC, TLCExt, Json
CONSTANTS Records, PerRecord, PerLine, Damages
VARIABLES lines, origin, done, pos, mode, need, start, out
vars == <<lines, origin, done, pos, mode, need, start, out>>
Count == PerRecord * PerLine
Nm(r, j) == [k |-> "nums", v |-> [m \in 1..PerLine |-> 100 * r + 10 * j + m], bad |-> FALSE, tail |-> FALSE]
Rec(r) == <<[k |-> "date", v |-> r, ok |-> TRUE], [k |-> "point", v |-> r]>> \o [j \in 1..PerRecord |-> Nm(r, j)]
RECURSIVE File(_)
File(n) == IF n = 0 THEN <<>> ELSE File(n - 1) \o Rec(n)
Size == 2 + PerRecord
Init == /\ lines = File(Records) /\ origin = [j \in 1..(Records * Size) |-> ((j - 1) \div Size) + 1]
        /\ done = <<>> /\ pos = 0 /\ mode = "damage" /\ need = 0 /\ start = 0 /\ out = <<>>
Without(q, j) == SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))
Put(j, x) == lines' = [lines EXCEPT ![j] = x] /\ UNCHANGED origin
Damage == /\ mode = "damage" /\ Len(done) < Damages
          /\ \E j \in 1..Len(lines) :
             \E w \in {"drop", "garble", "cut", "more", "stars", "impossible", "end"} :
               /\ done' = Append(done, [at |-> j, what |-> w])
               /\ CASE w = "drop" -> lines' = Without(lines, j) /\ origin' = Without(origin, j)
                    [] w = "end" -> lines' = SubSeq(lines, 1, j - 1) /\ origin' = SubSeq(origin, 1, j - 1)
                    [] w = "garble" -> Put(j, [k |-> "text"])
                    [] w = "cut" /\ lines[j].k = "nums" /\ Len(lines[j].v) > 1 -> Put(j, [lines[j] EXCEPT !.v = Tail(@)])
                    [] w = "more" /\ lines[j].k = "nums" -> Put(j, [lines[j] EXCEPT !.v = Append(@, 9)])
                    [] w = "stars" /\ lines[j].k = "nums" -> Put(j, [lines[j] EXCEPT !.bad = TRUE])
                    [] w = "impossible" /\ lines[j].k = "date" -> Put(j, [lines[j] EXCEPT !.ok = FALSE])
                    [] OTHER -> FALSE
          /\ UNCHANGED <<pos, mode, need, start, out>>
Open == /\ mode = "damage" /\ mode' = "seek" /\ pos' = 1 /\ PrintT("SCEN " \o ToJson([damage |-> done])) /\ UNCHANGED <<lines, origin, done, need, start, out>>
More == pos <= Len(lines)
AtDate == lines[pos].k = "date"
Eat == pos' = pos + 1
Seek == /\ mode = "seek" /\ More /\ Eat
        /\ IF AtDate /\ lines[pos].ok THEN mode' = "point" /\ start' = pos ELSE UNCHANGED <<mode, start>>
        /\ UNCHANGED <<lines, origin, done, need, out>>
Point == /\ mode = "point" /\ More
         /\ IF AtDate THEN mode' = "seek" /\ UNCHANGED <<pos, need>>
            ELSE IF lines[pos].k = "point" THEN mode' = "energy" /\ need' = Count /\ Eat
            ELSE mode' = "seek" /\ Eat /\ UNCHANGED need
         /\ UNCHANGED <<lines, origin, done, start, out>>
Energy == /\ mode = "energy" /\ More
          /\ IF AtDate THEN mode' = "seek" /\ UNCHANGED <<pos, need, out>>
             ELSE IF ~Nums(lines[pos]) \/ Len(lines[pos].v) > need THEN mode' = "seek" /\ Eat /\ UNCHANGED <<need, out>>
             ELSE /\ need' = need - Len(lines[pos].v) /\ Eat
                  /\ IF need' = 0 THEN mode' = "seek" /\ out' = Append(out, start) ELSE UNCHANGED <<mode, out>>
          /\ UNCHANGED <<lines, origin, done, start>>
Next == Damage \/ Open \/ Seek \/ Point \/ Energy
Spec == Init /\ [][Next]_vars

Ended == mode # "damage" /\ pos > Len(lines)
Exact == Ended => out = Starts(lines, 1, Count)
\* A record none of whose lines were touched comes out with its own values
Untouched(r) == \E i \in 1..Len(lines) : i + Size - 1 <= Len(lines) /\ SubSeq(lines, i, i + Size - 1) = Rec(r)
Survives == Ended => \A r \in 1..Records : Untouched(r) =>
              \E j \in 1..Len(out) : lines[out[j]].v = r /\ Values(lines, out[j] + 2, EndOf(lines, out[j], Count)) = Values(Rec(r), 3, Size + 1)
\* No record mixes the lines of two, unless a record's first two lines are gone
Pure == Ended /\ Len(done) <= 1 => \A j \in 1..Len(out) : \A m \in out[j]..(EndOf(lines, out[j], Count) - 1) : origin[m] = origin[out[j]]
=============================================================================

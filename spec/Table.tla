-------------------------------- MODULE Table --------------------------------
(* Observation tables. A line is [k |-> "comment" | "blank" | "row", toks]; a  *)
(* token is [t |-> "i", v] a whole number, [t |-> "d", v] a decimal in 1/1000, *)
(* [t |-> "p", v] one in brackets, [t |-> "w", s] a word, [t |-> "g", v] a     *)
(* stamp d=YYYYMMDDHH as <<y, m, d, h>>.                                       *)
EXTENDS Calendar

IsInt(x) == x.t = "i"
Num(x) == x.t \in {"i", "d"}
Val(x) == IF x.t = "i" THEN x.v * 1000 ELSE x.v
OptNum(x) == IF Num(x) THEN <<Val(x)>> ELSE <<>>
\* Year to minute from the first five columns
DateOK(r) == /\ Len(r) >= 5 /\ \A j \in 1..5 : IsInt(r[j])
             /\ IsDate(r[1].v, r[2].v, r[3].v) /\ r[4].v \in 0..23 /\ r[5].v \in 0..59
DateOf(r) == [j \in 1..5 |-> r[j].v]
PointNames == <<"n", "nne", "ne", "ene", "e", "ese", "se", "sse", "s", "ssw", "sw", "wsw", "w", "wnw", "nw", "nnw">>
\* A bearing is given in degrees or as a point of the compass
OptDir(x) == IF IsInt(x) THEN <<x.v>>
             ELSE IF x.t = "w" THEN IF \E k \in 1..16 : PointNames[k] = x.s THEN <<x.s>> ELSE <<>>
             ELSE <<>>
\* What was read, as the same: degrees if given in degrees, or the point
DirFits(x, got) == IF OptDir(x) = <<>> THEN got = <<>>
                   ELSE Len(got) = 1 /\ IF IsInt(x) THEN got[1].deg = x.v ELSE got[1].name = x.s
Steep(x) == IF x.t = "w" /\ x.s \in {"VERY_STEEP", "STEEP", "AVERAGE", "SWELL"} THEN x.s ELSE "NA"

WaveOK(r) == Len(r) >= 15 /\ DateOK(r)
WaveFits(r, g) ==
  /\ g.date = DateOf(r)
  /\ g.height = OptNum(r[6]) /\ g.swell = OptNum(r[7]) /\ g.swellperiod = OptNum(r[8])
  /\ g.wind = OptNum(r[9]) /\ g.windperiod = OptNum(r[10])
  /\ DirFits(r[11], g.swelldir) /\ DirFits(r[12], g.winddir)
  /\ g.steepness = Steep(r[13])
  /\ g.average = OptNum(r[14]) /\ DirFits(r[15], g.mean)
  /\ g.units = "Meters Meters Seconds Meters Seconds Degrees Degrees Seconds Degrees"

\* An even number of columns has the separation frequency before the pairs
Sep(r) == Len(r) % 2 = 0
From(r) == IF Sep(r) THEN 7 ELSE 6
Pairs(r) == (Len(r) + 1 - From(r)) \div 2
SpectralOK(r) == /\ Len(r) >= 7 /\ DateOK(r) /\ Pairs(r) >= 1
                 /\ \A j \in 1..Pairs(r) : Num(r[From(r) + 2 * (j - 1)]) /\ r[From(r) + 2 * (j - 1) + 1].t = "p"
SpectralFits(r, g) ==
  /\ g.date = DateOf(r)
  /\ g.value = [j \in 1..Pairs(r) |-> Val(r[From(r) + 2 * (j - 1)])]
  /\ g.freq = [j \in 1..Pairs(r) |-> r[From(r) + 2 * (j - 1) + 1].v]
  /\ IF Sep(r) THEN Num(r[6]) => g.sep = <<Val(r[6])>> ELSE g.sep = <<>>

IndexOK(r) == /\ Len(r) >= 6 /\ IsInt(r[1]) /\ IsInt(r[2]) /\ r[1].v >= 0 /\ r[2].v >= 0
              /\ r[3].t = "g" /\ IsDate(r[3].v[1], r[3].v[2], r[3].v[3]) /\ r[3].v[4] \in 0..23
IndexFits(r, g) ==
  /\ g.index = r[1].v /\ g.offset = r[2].v /\ g.high = r[2].hi
  /\ g.date = <<r[3].v[1], r[3].v[2], r[3].v[3], r[3].v[4], 0>>
  /\ g.var = r[4].s /\ g.level = r[5].s /\ g.valid = r[6].s

RowOK(kind, r) == CASE kind = "wave" -> WaveOK(r) [] kind = "spectral" -> SpectralOK(r) [] OTHER -> IndexOK(r)
RowFits(kind, r, g) == CASE kind = "wave" -> WaveFits(r, g) [] kind = "spectral" -> SpectralFits(r, g) [] OTHER -> IndexFits(r, g)
\* The lines that make records, in order
Good(kind, lines) == SelectSeq([j \in 1..Len(lines) |-> j], LAMBDA j : lines[j].k = "row" /\ RowOK(kind, lines[j].toks))
=============================================================================

------------------------------ MODULE TraceS01 ------------------------------
(* A session is one spectrum: f in mHz, raw directions in degrees.            *)
EXTENDS SpectralGrid, Trig, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]
Turned(x, y) == LET m == Abs(x - y) % 36000 IN IF m > 18000 THEN 36000 - m ELSE m
Off(n) == Max2(2, n \div 1000000)
\* First directional moments: the energies as a vector, its length in 1/10000
Part1(t, k, g) == Sum(TLCEval([i \in 1..Len(t.ds) |-> Width(t.ds, i) * At(t.f, t.e, k, i) * g[i]]), Len(t.ds))
Raw(t) == TLCEval([i \in 1..Len(t.ds) |-> Sin(t.ds[i])])
RawC(t) == TLCEval([i \in 1..Len(t.ds) |-> Cos(t.ds[i])])
FromS(t) == TLCEval([i \in 1..Len(t.ds) |-> Sin(FromDir(t.conv, t.ds[i]))])
FromC(t) == TLCEval([i \in 1..Len(t.ds) |-> Cos(FromDir(t.conv, t.ds[i]))])
\* a mean direction in degrees points along the vector <<east, north>>, unless that nearly cancels out
Along(v, deg) == LET along == v[1] * Sin(deg) + v[2] * Cos(deg)
                     across == v[1] * Cos(deg) - v[2] * Sin(deg)
                 IN (Abs(v[1]) + Abs(v[2]) >= 1500) => along > 0 /\ Abs(across) <= (along \div 50) + 60000
OK(e, t) ==
  LET f == t.f  ds == t.ds  nk == Len(t.f)  nth == Len(t.ds)  en == t.e IN
  CASE e.op = "shape" ->
         /\ e.nk = nk /\ e.nth = nth
         /\ NearSeq(e.dk, [k \in 1..nk |-> 1000 * Width(f, k)], 1)
         /\ NearSeq(e.dth, [i \in 1..nth |-> 1000 * Width(ds, i)], 1)
         /\ Len(e.period) = nk /\ \A k \in 1..nk : Near(e.period[k] * f[k], 1000000, f[k])
         /\ e.range = <<LowOf({en[c] : c \in 1..Len(en)}), HighOf({en[c] : c \in 1..Len(en)})>>
         /\ Len(e.cells) = nk * nth
         /\ \A c \in 1..Len(e.cells) : LET k == e.cells[c][1] + 1  i == e.cells[c][2] + 1 IN
                                         k \in 1..nk /\ i \in 1..nth /\ c = Index(f, k, i)
         /\ e.at = [i \in 1..nth |-> [k \in 1..nk |-> At(f, en, k, i)]]
         /\ Len(e.from) = nth /\ \A i \in 1..nth : Turned(e.from[i], 100 * FromDir(t.conv, ds[i])) <= 1
         /\ Len(e.fromrad) = nth /\ \A i \in 1..nth : Turned(e.fromrad[i], 100 * FromDir(t.conv, ds[i])) <= 1
         /\ e.raw = [i \in 1..nth |-> 100 * ds[i]]
    [] e.op = "oned" ->
         /\ NearSeq(e.f, [k \in 1..nk |-> 1000 * OverDirs(f, ds, en, k)], 2)
         /\ NearSeq(e.d, [i \in 1..nth |-> 1000 * OverFreqs(f, ds, en, i)], 2)
         /\ Sum([k \in 1..nk |-> Width(f, k) * (e.f[k] \div 1000)], nk) = Sum([i \in 1..nth |-> Width(ds, i) * (e.d[i] \div 1000)], nth)
            \/ Near(Sum([k \in 1..nk |-> Width(f, k) * e.f[k]], nk) \div 1000, Sum([i \in 1..nth |-> Width(ds, i) * e.d[i]], nth) \div 1000, 1000)
    [] e.op = "momf" -> NearSeq(e.got, [i \in 1..nth |-> FreqMoment(f, ds, en, i, e.n)], 1)
    \* Energy over frequency
    [] e.op = "momfover" ->
         /\ Len(e.got) = nth
         /\ \A i \in 1..nth :
              Near(e.got[i], Sum(TLCEval([k \in 1..nk |-> (1000000 * Width(f, k) * At(f, en, k, i)) \div f[k]]), nk), nk + 1)
    \* Zeroth directional moments are the integral, twice; squared sines and cosines add up to it
    [] e.op = "momd" -> /\ NearSeq(e.zero1, [k \in 1..nk |-> 1000 * OverDirs(f, ds, en, k)], 2)
                        /\ NearSeq(e.zero2, [k \in 1..nk |-> 1000 * OverDirs(f, ds, en, k)], 2)
                        /\ Len(e.two1) = nk /\ Len(e.two2) = nk
                        /\ \A k \in 1..nk : Near(e.two1[k] + e.two2[k], 1000 * OverDirs(f, ds, en, k), 4)
                        /\ Len(e.one1) = nk /\ Len(e.one2) = nk
                        /\ \A g \in {Raw(t)} : \A h \in {RawC(t)} : \A k \in 1..nk :
                             \A w \in {OverDirs(f, ds, en, k)} :
                               /\ Near(e.one1[k], Part1(t, k, g) \div 10, 3 + w \div 15)
                               /\ Near(e.one2[k], Part1(t, k, h) \div 10, 3 + w \div 15)
    \* The mean direction of every frequency
    [] e.op = "mean" -> /\ Len(e.got) = nk
                        /\ \A g \in {FromS(t)} : \A h \in {FromC(t)} : \A k \in 1..nk :
                             \A w \in {OverDirs(f, ds, en, k)} :
                               w > 0 => /\ e.got[k] >= 0 /\ e.got[k] <= 36000
                                        /\ Along(<<Part1(t, k, g) \div w, Part1(t, k, h) \div w>>, (e.got[k] + 50) \div 100)
    \* Of a single cell, every moment is the one before times its frequency, or its sine, or its cosine
    [] e.op = "powers" ->
         /\ Len(e.got) = 14 /\ \A j \in 1..14 : Near(e.got[j], 100 * f[e.k], 1)
         /\ Len(e.sines) = 8 /\ Len(e.cosines) = 8
         /\ \A j \in 1..8 : /\ (Abs(Sin(ds[e.i])) >= 100) => Near(e.sines[j], Sin(ds[e.i]), 1)
                            /\ (Abs(Cos(ds[e.i])) >= 100) => Near(e.cosines[j], Cos(ds[e.i]), 1)
    \* a times the energy
    [] e.op = "scaled" -> /\ Len(e.base) = Len(e.got)
                          /\ \A j \in 1..Len(e.base) : Near(e.got[j], e.a * e.base[j], e.a * 2)
    [] e.op = "lone" -> /\ Len(e.got) = nk
                        /\ \A k \in 1..nk : e.has[k] =>
                             e.got[k] >= 0 /\ e.got[k] <= 36000 /\ Turned(e.got[k], 100 * FromDir(t.conv, ds[e.i])) <= 1
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

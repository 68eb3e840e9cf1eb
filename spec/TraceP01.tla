------------------------------ MODULE TraceP01 ------------------------------
(* Periods in 1/10 s, depths in m, depths in wavelengths (hl) in 1/100000,     *)
(* wavelengths over the period squared (lt) in 1/10000 m/s2, angles in degrees.*)
EXTENDS Dispersion, Surf, TraceKit
VARIABLES s, l, bad
Ses == Sessions[s]
Ev == Ses.events[l]

\* The relation, to within parts per thousand and a unit or two
Part(x, y, permille, unit) == Near(x, y, unit + (Abs(y) \div 1000) * permille + ((Abs(y) % 1000) * permille) \div 1000)
Solves(w, permille) == w.hl > 0 /\ w.lt > 0 /\ Finite(w.lt) /\ Part(w.lt, (Deep * AtDepth(w.hl)) \div 100000, permille, 2)
X(hl) == IF hl >= 200000 THEN 10000 ELSE (hl * 6283) \div 100000

Dispersed(e, t) ==
  /\ \A i \in 1..Len(e.waves) : LET w == e.waves[i] IN Solves(w, 1) /\ w.lt <= Deep + 2
  \* Waves (1/100 m) along growing depth, or along growing period
  /\ \A i \in 1..(Len(e.waves) - 1) : e.waves[i].length <= e.waves[i + 1].length + 1
  /\ \E i \in 1..Len(e.waves) : e.waves[i].length < e.waves[Len(e.waves)].length
Approximate(e, t) ==
  /\ Solves(e.eckart, 2) /\ Solves(e.hunt, 2) /\ Solves(e.wave, 2)
  /\ Part(e.eckart.lt, e.exact.lt, 6, 2) /\ Part(e.hunt.lt, e.exact.lt, 6, 2)
  \* The group's speed over the wave's, between a half and one
  /\ e.group \in 4990..10010 /\ Part(e.group, Group(X(e.exact.hl)), 20, 10)
  \* Wavelength times frequency (both in 1/1000 m/s), also in deep water, where both are 1.56 times the period
  /\ Part(e.speed, e.times, 1, 2)
  /\ Part(e.deepspeed, e.deeptimes, 1, 2) /\ Part(e.deepspeed, 156 * t.period, 4, 2)

\* The wind comes from where it does not blow to: whole degrees, within one
Wind(e) ==
  /\ e.from \in 0..359
  /\ Near(e.speed * e.speed, e.u * e.u + e.v * e.v, 2 * e.speed + 2)
  /\ e.speed >= 20 => LET across == e.u * Cos(e.from) - e.v * Sin(e.from)
                          along == -(e.u * Sin(e.from) + e.v * Cos(e.from))
                      IN along > 0 /\ Abs(across) <= (e.speed * 185) + 20000
\* How much higher the waves break than they were, over 1000, to the fifth power
Fifth(r) == LET r2 == (r * r) \div 1000 r4 == (r2 * r2) \div 1000 IN (r4 * r) \div 1000
\* Offshore height in 1/10 m, broken height over it in 1/1000
Offshore(t) == (Deep * ((t.period * t.period) \div 10)) \div 10000
Broken(t, b) ==
  LET a == Incidence(t.dir, t.beach)
      want == ((((Offshore(t) * 551) \div b.height) \div 10) * (Spread4(a, AtDepth(t.hl)) \div 10)) \div 1000
  IN Part(Fifth(b.ratio), want, 30, 40)
Surfed(e, t) ==
  /\ \A i \in 1..Len(e.breaks) : Breaks(t.dir, t.beach) <=> e.breaks[i].height # 0
  /\ Breaks(t.dir, t.beach) =>
       /\ Incidence(t.dir, t.beach) < 75 => \A i \in 1..Len(e.breaks) : Broken(t, e.breaks[i])
       /\ \A i \in 1..(Len(e.breaks) - 1) :
            /\ e.breaks[i].height < e.breaks[i + 1].height
            /\ e.breaks[i].broken <= e.breaks[i + 1].broken
            /\ Incidence(t.dir, t.beach) < 85 => e.breaks[i].broken < e.breaks[i + 1].broken
\* Weggel: the height over the depth at breaking is b - a H / (g T^2), with a = 43.8 (1 - exp(-19 m)) and
\* b = 1.56 / (1 + exp(-19.5 m)) for a beach of slope m; a in 1/100, b in 1/10000, H / (g T^2) in 1/10000000.
Breaker(e, t) ==
  LET m == e.slope  b == 156000000 \div (10000 + Decay(195 * m))  a == (438 * (10000 - Decay(190 * m))) \div 1000
      hgt == ((((e.broken * 10000) \div 981) * 1000) \div (t.period * t.period)) * 10
  IN /\ Near(e.broken, e.same, 1)
     /\ Near(e.index, b - ((a * (hgt \div 10)) \div 10000), 30 + (hgt \div 500))
     /\ e.index > 300 => Part((e.in * (e.index \div 10)) \div 1000, e.broken, 40, 5)
Alike(e) == \A i \in 1..Len(e.heights) : e.heights[i] = e.heights[1]

Refracted(e, t) ==
  LET th == AtDepth(t.hl) IN
  /\ e.angle >= 0 /\ e.angle <= e.incident * 100
  \* Sines in 1/10000
  /\ Near(e.sine, Bent(e.incident, th), 8)
  /\ e.coefficient >= 0 /\ e.coefficient <= 10000
  /\ e.incident < 75 => Near(Square(Square(e.coefficient)), Spread4(e.incident, th), 60)
\* Shoaling: the squared coefficient times tanh x times twice the group's part is one
Shoaled(e, t) == LET ks2 == (e.coefficient * e.coefficient) \div 1000 IN
  Part(((((ks2 * (AtDepth(t.hl) \div 10)) \div 10000) * Group(X(t.hl))) \div 5000), 1000, 15, 5)

OK(e, t) ==
  CASE e.op = "dispersed" -> Dispersed(e, t)
    [] e.op = "approximate" -> Approximate(e, t)
    [] e.op = "wind" -> Wind(e)
    [] e.op = "surf" -> Surfed(e, t)
    [] e.op = "alike" -> Alike(e)
    [] e.op = "breaker" -> Breaker(e, t)
    [] e.op = "refraction" -> Refracted(e, t)
    [] e.op = "shoaling" -> Shoaled(e, t)
    \* Energy goes with the squares of height and period: 1.970 kJ
    [] e.op = "energy" -> Near(e.unit, 1970, 1)
    \* Moments of a bin: its energy over its width, and that by its frequency squared
    [] e.op = "moments" -> /\ Near(e.zero, 100 * e.e * e.b, 1)
                           /\ Near(e.second, (e.e * e.b * e.f * e.f) \div 10, 1)
    \* The steepness of a sea: its height over the length in deep water of waves of its mean period
    [] e.op = "steepness" -> Part(e.steep, (6404878 * e.h) \div (e.t * e.t), 1, 2)
    \* The peak of swell from afar rises by g t over 4 pi d
    [] e.op = "dispersal" -> Part(e.up, (28103580 * e.hours) \div e.km, 1, 2)
    \* A wind sea: nothing in no time, ever lower, the faster the stronger the wind, one while after the other as both
    [] e.op = "growth" -> /\ Near(e.none, 0, 1)
                          /\ e.one > 0 => e.first < 0 /\ e.faster < e.first
                          /\ e.two > 0 => e.then < 0
                          /\ Near(e.first + e.then, e.whole, 3)
                          /\ Near(2 * (e.half + e.peak), e.first + e.peak, 3)
    \* after a calm: 15.8 (g / u)^0.57 t^-0.43, in logarithms
    [] e.op = "peak" -> Near(e.log, 406155 - ((57 * e.lnu) \div 100) - ((43 * e.lns) \div 100), 30)
    [] OTHER -> FALSE
Step == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = TRUE /\ l' = l + 1 /\ UNCHANGED <<s, bad>>
Fail == /\ ~bad /\ l <= Len(Ses.events) /\ OK(Ev, Ses.init) = FALSE /\ bad' = TRUE /\ Reject(s, l) /\ UNCHANGED <<s, l>>
TraceInit == s \in 1..Len(Sessions) /\ l = 1 /\ bad = FALSE
TraceSpec == TraceInit /\ [][Step \/ Fail]_<<s, l, bad>>
=============================================================================

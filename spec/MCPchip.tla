------------------------------- MODULE MCPchip -------------------------------
(* Piecewise cubic Hermite interpolation in whole-number fractions: the slopes *)
(* of Fritsch and Butland, walked from left to right in steps of 1/Parts of a  *)
(* cell. Every table of N knots over Ys and cell widths over Ws.               *)
EXTENDS Interp, Json
CONSTANTS N, Ys, Ws, Parts, Circular, Share
VARIABLES xs, ys, k, j, last
vars == <<xs, ys, k, j, last>>

\* All tables of widths and values
Knots(ws) == [i \in 1..N |-> LET RECURSIVE sum(_) sum(m) == IF m = 0 THEN 0 ELSE ws[m] + sum(m - 1) IN Parts * sum(i - 1)]
Init == /\ \E ws \in [1..N -> Ws] : /\ (Circular \/ ws[N] = CHOOSE w \in Ws : TRUE)
                                    /\ xs = Append(Knots(ws), Parts * ws[N] + Knots(ws)[N])
        /\ ys \in [1..N -> Ys] /\ k = 1 /\ j = 0 /\ last = <<>>

\* Table entry i, going round when the table is circular (xs[N + 1] is then the turn)
Val(i) == ys[((i + 5 * N - 1) % N) + 1]
Width(i) == LET q == ((i + 5 * N - 1) % N) + 1 IN (xs[q + 1] - xs[q]) \div Parts
Rise(i) == Val(i + 1) - Val(i)
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* A slope as a fraction <<num, den>>, den > 0
Slope(i) ==
  IF ~Circular /\ i = 1 THEN <<Rise(1), Width(1)>>
  ELSE IF ~Circular /\ i = N THEN <<Rise(N - 1), Width(N - 1)>>
  ELSE LET h0 == Width(i - 1)  h1 == Width(i)
           r0 == Rise(i - 1)   r1 == Rise(i)
           w1 == 2 * h1 + h0   w2 == h1 + 2 * h0
       IN IF Sgn(r0) # Sgn(r1) \/ r0 = 0 \/ r1 = 0 THEN <<0, 1>>
          \* (w1 + w2) / (w1 h0 / r0 + w2 h1 / r1)
          ELSE LET num == (w1 + w2) * r0 * r1
                   den == w1 * h0 * r1 + w2 * h1 * r0
               IN IF den > 0 THEN <<num, den>> ELSE <<0 - num, 0 - den>>
\* Value at j/Parts of cell i, times Parts^3 D, D the product of the slopes' denominators
At(i, t) ==
  LET a == Slope(i)  b == Slope(i + 1)
      P == Parts
      h00 == 2 * t * t * t - 3 * t * t * P + P * P * P
      h10 == t * t * t - 2 * t * t * P + t * P * P
      h01 == 3 * t * t * P - 2 * t * t * t
      h11 == t * t * t - t * t * P
  IN (h00 * Val(i) + h01 * Val(i + 1)) * a[2] * b[2]
     + Width(i) * (h10 * a[1] * b[2] + h11 * b[1] * a[2])
Unit(i) == Parts * Parts * Parts * Slope(i)[2] * Slope(i + 1)[2]
Cells == IF Circular THEN N ELSE N - 1
Walk == /\ k <= Cells
        /\ last' = <<k, At(k, j), Unit(k)>>
        /\ IF j = Parts THEN k' = k + 1 /\ j' = 0 ELSE j' = j + 1 /\ k' = k
        /\ UNCHANGED <<xs, ys>>
Next == Walk
Spec == Init /\ [][Next]_vars

Between == last # <<>> => LET i == last[1] IN /\ last[2] >= MinN(Val(i), Val(i + 1)) * last[3]
                                              /\ last[2] <= MaxN(Val(i), Val(i + 1)) * last[3]
Exact == (last # <<>> /\ j = 1) => last[2] = Val(last[1]) * last[3]
Monotone == [][(last # <<>> /\ last'[1] = last[1]) =>
               IF Rise(last[1]) >= 0 THEN last'[2] >= last[2] ELSE last'[2] <= last[2]]_vars
\* A table on a straight line gives the line
Linear == (~Circular /\ last # <<>> /\ \A i \in 1..(N - 1) : Rise(i) * Width(1) = Rise(1) * Width(i))
          => LET jj == IF j = 0 THEN Parts ELSE j - 1 IN last[2] = (Val(last[1]) * Parts + Rise(last[1]) * jj) * (last[3] \div Parts)
RECURSIVE Sum(_)
Sum(i) == IF i = 0 THEN 0 ELSE Sum(i - 1) * 5 + ys[i] + 3 * (xs[i] \div Parts)
Export == (last = <<>> /\ Sum(N) % Share = 0) => PrintT("SCEN " \o ToJson([xs |-> [i \in 1..(N + 1) |-> xs[i] \div Parts], ys |-> ys]))
=============================================================================

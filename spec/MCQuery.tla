------------------------------- MODULE MCQuery -------------------------------
(* A query walking once around the circle and up the frequencies, over every   *)
(* small spectrum.                                                             *)
EXTENDS SpectralGrid
CONSTANTS Turn, NDirs, Es
Axis == <<2, 3, 6>>
VARIABLES ds, e, x, d, before     \* before: the last <<x, d, value, area>>
vars == <<ds, e, x, d, before>>
Init == /\ ds \in {q \in [1..NDirs -> 0..(Turn - 1)] : \A i \in 1..(NDirs - 1) : q[i] < q[i + 1]}
        /\ e \in [1..(3 * NDirs) -> Es]
        /\ x = 2 /\ d = 0 /\ before = <<>>
Value == LET p == CHOOSE p \in FreqPairs(Axis, x) : TRUE  q == CHOOSE q \in DirPairs(ds, d, Turn) : TRUE
         IN Blend(Axis, ds, e, p, q, x, d, Turn)
Walk == /\ d <= Turn /\ d' = d + 1 /\ before' = <<x, d, Value>> /\ UNCHANGED <<ds, e, x>>
Climb == /\ d > Turn /\ x < 6 /\ x' = x + 1 /\ d' = 0 /\ before' = <<>> /\ UNCHANGED <<ds, e>>
Next == Walk \/ Climb
Spec == Init /\ [][Next]_vars

Enclosed == FreqPairs(Axis, x) # {} /\ DirPairs(ds, d, Turn) # {}
\* Whichever side of a node is looked at, the blend is the same
OneValue == \A p1, p2 \in FreqPairs(Axis, x), q1, q2 \in DirPairs(ds, d, Turn) :
   LET a == Blend(Axis, ds, e, p1, q1, x, d, Turn)  b == Blend(Axis, ds, e, p2, q2, x, d, Turn) IN a[1] * b[2] = b[1] * a[2]
InCorners == \A p \in FreqPairs(Axis, x), q \in DirPairs(ds, d, Turn) :
   LET a == Blend(Axis, ds, e, p, q, x, d, Turn)  S == Corners(Axis, e, p, q)
   IN a[2] > 0 /\ LowOf(S) * a[2] <= a[1] /\ a[1] <= HighOf(S) * a[2]
AtNodes == \A k \in 1..3, i \in 1..NDirs : (Axis[k] = x /\ ds[i] = d) => Value[1] = At(Axis, e, k, i) * Value[2]
\* North is where the circle closes
Seam == (before # <<>> /\ before[2] = Turn) =>
   LET q == CHOOSE q \in DirPairs(ds, 0, Turn) : TRUE  p == CHOOSE p \in FreqPairs(Axis, x) : TRUE
       b == Blend(Axis, ds, e, p, q, x, 0, Turn)
   IN before[3][1] * b[2] = b[1] * before[3][2]
=============================================================================

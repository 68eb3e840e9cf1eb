------------------------------ MODULE GridRecord ------------------------------
(* A place's waves and wind out of the fields of one time, each the mean of    *)
(* the values around the place. Messages are [key, dated, grid, vals], key the *)
(* variable's name, with its number among a sequence of the same ("" if none), *)
(* data whether there are values at all.                                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Full, None
G == INSTANCE GridField

Needed == <<"HTSGW", "PERPW", "DIRPW">>
Parts == << <<"SWELL_0", "SWPER_0", "SWDIR_0">>, <<"SWELL_1", "SWPER_1", "SWDIR_1">>, <<"SWELL_2", "SWPER_2", "SWDIR_2">>,
            <<"SWELL_3", "SWPER_3", "SWDIR_3">>, <<"WVHGT", "WVPER", "WVDIR">> >>

\* What a message has around the place; nothing if it is of no use
Seen(m, lat, lng, tol) == IF m.dated /\ m.key # "" /\ m.data /\ G!Covers(m, lat, lng) THEN G!Around(m, lat, lng, tol) ELSE <<>>
\* Of several messages of a key, the last that has anything
Latest(ms, key, lat, lng, tol) ==
  LET at == {k \in 1..Len(ms) : ms[k].key = key /\ Seen(ms[k], lat, lng, tol) # <<>>} IN
  IF at = {} THEN <<>> ELSE Seen(ms[CHOOSE k \in at : \A j \in at : j <= k], lat, lng, tol)

RECURSIVE Total(_)
Total(xs) == IF xs = <<>> THEN 0 ELSE xs[1] + Total(Tail(xs))
\* In the unit of the values, to one of them
IsMean(x, xs) == G!Mag(x * Len(xs) - Total(xs)) <= Len(xs)
\* Directions, all within a quarter of the circle of the first of them: the mean of
\* how far they are from it (Turn to the circle)
Off(x, y, turn) == LET d == (x - y) % turn IN IF 2 * d > turn THEN d - turn ELSE d
Bunched(xs, turn) == \A k \in 1..Len(xs) : 4 * G!Mag(Off(xs[k], xs[1], turn)) <= turn
Offsets(xs, turn) == [k \in 1..Len(xs) |-> Off(xs[k], xs[1], turn)]
IsHeading(x, xs, turn, tol) == Bunched(xs, turn) => G!Mag(Off(x, xs[1], turn) * Len(xs) - Total(Offsets(xs, turn))) <= tol * Len(xs)
==============================================================================

------------------------------- MODULE Interp -------------------------------
(* Shape preserving interpolation of a table xs, ys (xs ascending whole        *)
(* numbers; ys whole numbers, values in 1/Fine of them).                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fine == 10000
AbsN(x) == IF x < 0 THEN -x ELSE x
MinN(a, b) == IF a < b THEN a ELSE b
MaxN(a, b) == IF a < b THEN b ELSE a

\* The cell x lies in: the last knot not after it; 0 before the table
Cell(xs, x) == Cardinality({i \in 1..Len(xs) : xs[i] <= x})
\* v is fit for x: exact at knots and beyond the ends, between the two knot values elsewhere
Fits(xs, ys, x, v) ==
  LET k == Cell(xs, x) IN
  CASE k = 0 -> v = ys[1] * Fine
    [] k = Len(xs) -> v = ys[Len(ys)] * Fine
    [] k \in 1..(Len(xs) - 1) /\ xs[k] = x -> v = ys[k] * Fine
    [] OTHER -> /\ v >= MinN(ys[k], ys[k + 1]) * Fine - 1
                /\ v <= MaxN(ys[k], ys[k + 1]) * Fine + 1
\* moving right within one cell the value moves from the one knot's towards the other's
Onwards(xs, ys, x0, v0, x, v) ==
  LET k == Cell(xs, x0) IN
  (x0 <= x /\ k = Cell(xs, x) /\ k \in 1..(Len(xs) - 1)) =>
     IF ys[k + 1] >= ys[k] THEN v >= v0 - 1 ELSE v <= v0 + 1
\* Straight-line tables are reproduced
Straight(xs, ys) == \A i \in 2..(Len(xs) - 1) :
  (ys[i + 1] - ys[i]) * (xs[2] - xs[1]) = (ys[2] - ys[1]) * (xs[i + 1] - xs[i])
OnLine(xs, ys, x, v) ==
  (Straight(xs, ys) /\ x >= xs[1] /\ x <= xs[Len(xs)]) =>
    LET w == ys[1] * Fine + ((ys[2] - ys[1]) * Fine * (x - xs[1])) \div (xs[2] - xs[1]) IN AbsN(v - w) <= 2

(* Around a circle of Turn: ds ascending in 0..Turn-1 *)
\* the two table entries enclosing d, clockwise
LowerC(ds, d) == LET b == {i \in 1..Len(ds) : ds[i] <= d} IN IF b = {} THEN Len(ds) ELSE Cardinality(b)
UpperC(ds, i) == IF i = Len(ds) THEN 1 ELSE i + 1
FitsC(ds, ys, d, v, turn) ==
  LET i == LowerC(ds, d % turn)
      j == UpperC(ds, i)
  IN IF ds[i] = d % turn THEN v = ys[i] * Fine
     ELSE v >= MinN(ys[i], ys[j]) * Fine - 1 /\ v <= MaxN(ys[i], ys[j]) * Fine + 1
=============================================================================

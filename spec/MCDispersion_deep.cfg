SPECIFICATION Spec
CONSTANT Periods = {20, 30, 40, 50, 60, 70, 80, 90, 100, 120, 134, 150, 180, 210, 250, 300}
CONSTANT Depths <- Dense
INVARIANT Bracket
INVARIANT Deeper
INVARIANT Longer
INVARIANT Bounded
INVARIANT Grouped
PROPERTY Solved
CHECK_DEADLOCK FALSE

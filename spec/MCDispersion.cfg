SPECIFICATION Spec
CONSTANT Periods = {20, 45, 70, 100, 134, 180, 250, 300}
CONSTANT Depths <- Sample
INVARIANT Bracket
INVARIANT Deeper
INVARIANT Longer
INVARIANT Bounded
INVARIANT Grouped
PROPERTY Solved
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT W = 3
CONSTANT H = 2
CONSTANT Values = {0, 40, 80}
CONSTANT Levels <- L
INVARIANT Nested
INVARIANT Gone
INVARIANT Exact
CHECK_DEADLOCK FALSE

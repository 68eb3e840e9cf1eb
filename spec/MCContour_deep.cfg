SPECIFICATION Spec
CONSTANT W = 3
CONSTANT H = 3
CONSTANT Values = {0, 80}
CONSTANT Levels <- L
INVARIANT Nested
INVARIANT Gone
INVARIANT Exact
CHECK_DEADLOCK FALSE

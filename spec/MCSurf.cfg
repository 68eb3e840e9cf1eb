SPECIFICATION Spec
CONSTANT Step = 15
CONSTANT Slows = {10000, 40000, 90000}
INVARIANT Range
INVARIANT Mirrored
INVARIANT Whole
INVARIANT Behind
INVARIANT Straighter
PROPERTY Kept
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Fields <- F
CONSTANT Ops <- P
CONSTANT Masks <- N
CONSTANT Depth = 4
INVARIANT Together
INVARIANT Restored
INVARIANT NoneLost
CHECK_DEADLOCK FALSE

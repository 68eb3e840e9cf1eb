SPECIFICATION Spec
CONSTANT Fields <- F
CONSTANT Ops <- O
CONSTANT Masks <- M
CONSTANT Depth = 5
INVARIANT Together
INVARIANT Restored
INVARIANT NoneLost
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Depth = 2
 Gone = 1
INVARIANTS Own Apart Kept
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Depth = 2
 Gone = 3
INVARIANTS Own Apart Kept
CHECK_DEADLOCK FALSE

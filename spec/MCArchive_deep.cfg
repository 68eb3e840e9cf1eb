SPECIFICATION Spec
CONSTANTS Vars = 3
 Times = 4
 Freqs = {1, 2, 3}
 Holes = 3
INVARIANTS Straight Done
CHECK_DEADLOCK FALSE

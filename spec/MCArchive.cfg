SPECIFICATION Spec
CONSTANTS Vars = 3
 Times = 3
 Freqs = {1, 2, 3}
 Holes = 2
INVARIANTS Straight Done
CHECK_DEADLOCK FALSE

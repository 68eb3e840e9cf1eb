SPECIFICATION Spec
CONSTANTS
 Es = {0, 3}
 Parts = 2
 Small = 1500
INVARIANTS Whole Own Conserved Ranked Complete
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Es = {1, 3}
 Parts = 3
 Small = 1500
INVARIANTS Whole Own Conserved Ranked Complete
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Turn = 6
 NDirs = 2
 Es = {0, 1, 3}
INVARIANTS Enclosed OneValue InCorners AtNodes Seam
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Turn = 7
 NDirs = 3
 Es = {0, 2}
INVARIANTS Enclosed OneValue InCorners AtNodes Seam
CHECK_DEADLOCK FALSE

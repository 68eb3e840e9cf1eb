SPECIFICATION Spec
CONSTANTS Records = 3
 PerRecord = 2
 PerLine = 2
 Damages = 2
INVARIANTS Exact Survives Pure
CHECK_DEADLOCK FALSE

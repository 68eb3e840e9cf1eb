SPECIFICATION Spec
CONSTANTS
 F <- FreqAxis
 Turn = 12
 Es = {0, 2}
 TF = 2
 TD = 4
INVARIANTS Kept Right Bounded
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 F <- FreqAxis
 Turn = 12
 Es = {0, 2}
 TF = 1
 TD = 5
INVARIANTS Kept Right Bounded
CHECK_DEADLOCK FALSE

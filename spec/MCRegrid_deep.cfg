SPECIFICATION Spec
CONSTANTS
 F <- FreqAxis
 Turn = 12
 Es = {0, 1, 3}
 TF = 3
 TD = 5
INVARIANTS Kept Right Bounded
CHECK_DEADLOCK FALSE

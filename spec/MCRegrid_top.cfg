SPECIFICATION Spec
CONSTANTS
 F <- FreqAxis
 Turn = 12
 Es = {0, 2}
 TF = 9
 TD = 11
INVARIANTS Kept Right Bounded
CHECK_DEADLOCK FALSE

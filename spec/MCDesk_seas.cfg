SPECIFICATION Spec
CONSTANTS
 Records = 3
 Batches = 2
 Most = 4
 Seas = {1, 2, 3, 4, 5}
 Max = 30
 Weight = 5
 Ways = FALSE
INVARIANTS Agreed IsCausal True Depths Rule
CHECK_DEADLOCK FALSE

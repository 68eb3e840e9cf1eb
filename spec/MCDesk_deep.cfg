SPECIFICATION Spec
CONSTANTS
 Records = 3
 Batches = 2
 Most = 5
 Seas = {2, 5}
 Max = 30
 Weight = 5
 Ways = TRUE
INVARIANTS Agreed IsCausal True Depths Rule Export
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Kinds = {"hourly", "hybrid1", "three", "hybrid3"}
 Cuts = {0, 3, 6, 12, 24}
 Most = 16
INVARIANTS Numbered InEffect
PROPERTY Onward
CHECK_DEADLOCK FALSE

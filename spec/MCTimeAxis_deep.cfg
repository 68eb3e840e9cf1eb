SPECIFICATION Spec
CONSTANTS
 Kinds = {"hourly", "hybrid1", "three", "hybrid3"}
 Cuts = {0, 3, 6, 12, 24, 48, 60}
 Most = 48
INVARIANTS Numbered InEffect
PROPERTY Onward
CHECK_DEADLOCK FALSE

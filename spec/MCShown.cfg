SPECIFICATION Spec
CONSTANTS
 Most = 120
 Kinds = {"Meters", "Degrees", "Unknown"}
INVARIANTS Alike Missing Sayable
CHECK_DEADLOCK FALSE

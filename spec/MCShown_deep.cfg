SPECIFICATION Spec
CONSTANTS
 Most = 250
 Kinds = {"Meters", "Degrees", "Unknown"}
INVARIANTS Alike Missing Sayable
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Full = 24
INVARIANTS Passed All Cases
CHECK_DEADLOCK FALSE

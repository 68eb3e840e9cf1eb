SPECIFICATION Spec
CONSTANT Full = 8
INVARIANTS Passed All SameBox Cases
PROPERTY Arrives
CHECK_DEADLOCK FALSE

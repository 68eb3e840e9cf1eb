SPECIFICATION Spec
CONSTANT Es = {0, 1}
INVARIANTS Agree Layout
CHECK_DEADLOCK FALSE

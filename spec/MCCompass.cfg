SPECIFICATION Spec
INVARIANTS Nearest Restored Lands Reversed Symmetric Conventions
CHECK_DEADLOCK FALSE

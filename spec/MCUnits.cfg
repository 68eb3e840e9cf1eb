SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS SameKind Sound Reversible Consistent
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Axes = {4, 8, 12, 24}
CONSTANT Spreads = {0, 25, 50, 100}
CONSTANT Angles = {0, 45, 90, 180, 315}
CONSTANT Energies = {0, 1000, 7000}
CONSTANT Gaps = {"none", "energy", "mean", "principal", "first", "second"}
INVARIANT Nonnegative
INVARIANT AbsentIsCalm
INVARIANT Alone
INVARIANT Kept
INVARIANT Clipped
INVARIANT Symmetric
INVARIANT Peaked
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT N = 6
CONSTANT Periods = {4, 16, 36}
CONSTANT Directions = {0, 45, 90, 200, 180, 270, 330}
CONSTANT Limits = {1, 16, 36}
CONSTANT Halves = {1, 2, 4}
INVARIANT Drawn
INVARIANT Edge
INVARIANT Rings
CHECK_DEADLOCK FALSE

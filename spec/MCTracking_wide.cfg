SPECIFICATION Spec
CONSTANTS
 Dirs = {350, 10, 25}
 Periods = {1000, 1200}
 Swells = 3
 Steps = 2
 Max = 30
 Weight = 30
 Share = 29
INVARIANTS KeepsTheRule UniqueInStep OnlyWithinTheAngle Export
PROPERTIES StaysGone UsedGrows
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Dirs = {350, 10, 100}
 Periods = {1000, 1200}
 Swells = 2
 Steps = 3
 Max = 30
 Weight = 30
 Share = 41
INVARIANTS KeepsTheRule UniqueInStep OnlyWithinTheAngle Export
PROPERTIES StaysGone UsedGrows
CHECK_DEADLOCK FALSE

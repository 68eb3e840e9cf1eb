SPECIFICATION Spec
CONSTANTS Years = {1999, 2000, 2022, 2023, 2024, 2099, 2100}
 Ahead = 27
INVARIANTS Named Counts
CHECK_DEADLOCK FALSE

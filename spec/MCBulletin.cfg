SPECIFICATION Spec
CONSTANTS Years = {2023, 2024}
 Ahead = 27
INVARIANTS Named Counts
CHECK_DEADLOCK FALSE

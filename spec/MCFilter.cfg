SPECIFICATION Spec
CONSTANTS Periods = {"a", "b", "none"}
 Dirs = {0, 175, 185, 190, 350}
 Most = 3
INVARIANTS Same Lead Mirror
CHECK_DEADLOCK FALSE

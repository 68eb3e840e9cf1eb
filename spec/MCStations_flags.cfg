SPECIFICATION Spec
CONSTANTS Most = 1
 Open = {"y", "n", ""}
INVARIANTS Agrees Kept Bare Numbers Sound
CHECK_DEADLOCK FALSE

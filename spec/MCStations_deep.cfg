SPECIFICATION Spec
CONSTANTS Most = 7
 Open = {"y"}
INVARIANTS Agrees Kept Bare Numbers Sound
CHECK_DEADLOCK FALSE

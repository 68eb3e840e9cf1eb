SPECIFICATION Spec
CONSTANTS Most = 5
 Open = {"y"}
INVARIANTS Agrees Kept Bare Numbers Sound
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Most = 2
 Damages = 1
INVARIANTS Accepts Intact
CHECK_DEADLOCK FALSE

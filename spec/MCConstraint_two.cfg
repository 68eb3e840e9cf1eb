SPECIFICATION Spec
CONSTANTS
 Most = 1
 Damages = 2
INVARIANTS Accepts Intact
CHECK_DEADLOCK FALSE

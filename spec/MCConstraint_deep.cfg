SPECIFICATION Spec
CONSTANTS
 Most = 2
 Damages = 2
INVARIANTS Accepts Intact
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxLen = 7
          MaxV = 3
          MaxDelta = 2
INVARIANTS Holds Complete
PROPERTIES NeverRetracts
CHECK_DEADLOCK FALSE

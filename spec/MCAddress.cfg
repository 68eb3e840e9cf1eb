SPECIFICATION Spec
CONSTANTS
 Ids = {"44097", "4409", "44097w"}
 Days <- D
 Clock = {0, 4, 5, 11, 12}
 Outputs = {0, 9, 12, 120}
INVARIANTS Distinct Apart Newest
CHECK_DEADLOCK FALSE

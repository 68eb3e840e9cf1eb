SPECIFICATION Spec
CONSTANTS
 N = 5
 Ys = {0,1,3,9}
 Ws = {1,5}
 Parts = 6
 Circular = FALSE
 Share = 17
INVARIANTS Between Exact Linear Export
PROPERTIES Monotone
CHECK_DEADLOCK FALSE

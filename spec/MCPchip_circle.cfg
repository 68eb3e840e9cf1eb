SPECIFICATION Spec
CONSTANTS
 N = 4
 Ys = {0,1,3,9}
 Ws = {1,5}
 Parts = 6
 Circular = TRUE
 Share = 5
INVARIANTS Between Exact Linear Export
PROPERTIES Monotone
CHECK_DEADLOCK FALSE

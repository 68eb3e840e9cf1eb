SPECIFICATION Spec
CONSTANTS
 N = 5
 Ys = {0,1,3,9}
 Ws = {1,5}
 Parts = 5
 Circular = TRUE
 Share = 37
INVARIANTS Between Exact Linear Export
PROPERTIES Monotone
CHECK_DEADLOCK FALSE

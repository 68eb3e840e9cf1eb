SPECIFICATION Spec
CONSTANTS Full = 24
 None = 99999
 MaxN = 2
 MaxM = 3
 Starts = {0, 5, 20}
 Vs = 1
 West = {FALSE, TRUE}
 Tols = {0, 2, 4, 5}
INVARIANTS Found Weighed Fair Node Wider Ends
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT Good
CONSTANTS Q = 5 T = 1 Old = 3 T2 = 2 New = 3 Mode = "sum"
CHECK_DEADLOCK FALSE

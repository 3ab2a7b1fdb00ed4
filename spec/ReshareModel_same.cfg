SPECIFICATION Spec
INVARIANT Good
CONSTANTS Q = 5 T = 2 Old = 3 T2 = 2 New = 4 Mode = "reshare"
CHECK_DEADLOCK FALSE

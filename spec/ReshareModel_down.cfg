SPECIFICATION Spec
INVARIANT Good
CONSTANTS Q = 5 T = 3 Old = 3 T2 = 2 New = 3 Mode = "reshare"
CHECK_DEADLOCK FALSE

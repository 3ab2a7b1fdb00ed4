SPECIFICATION Spec
INVARIANT Good
CONSTANTS Q = 5 T = 2 Old = 2 T2 = 3 New = 3 Mode = "reshare"
CHECK_DEADLOCK FALSE

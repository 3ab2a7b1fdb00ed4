SPECIFICATION Spec
INVARIANT Good
CONSTANTS Q = 5 T = 2 Old = 2 T2 = 2 New = 3 Mode = "renew"
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT Inv
CONSTANTS Q = 7 T = 2 NS = 4 Most = 4
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT Inv
CONSTANTS Q = 5 T = 1 NS = 4 Most = 4
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT Inv
CONSTANTS Q = 5 T = 3 NS = 4 Most = 4
CHECK_DEADLOCK FALSE

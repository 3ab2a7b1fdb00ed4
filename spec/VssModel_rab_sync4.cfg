SPECIFICATION Spec
INVARIANT Inv
PROPERTY Final
CONSTANTS Kind = "rab" N = 4 T = 3 F = 1 HonestDealer = FALSE Timeouts = FALSE
CHECK_DEADLOCK FALSE

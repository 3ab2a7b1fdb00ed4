SPECIFICATION Spec
INVARIANT Inv
PROPERTY Final
CONSTANTS Kind = "ped" N = 3 T = 2 F = 0 HonestDealer = FALSE Timeouts = FALSE
CHECK_DEADLOCK FALSE

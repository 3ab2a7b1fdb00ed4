SPECIFICATION Spec
INVARIANT Inv
PROPERTY Final
CONSTANTS Kind = "ped" N = 4 T = 3 F = 1 HonestDealer = TRUE Timeouts = TRUE
CHECK_DEADLOCK FALSE

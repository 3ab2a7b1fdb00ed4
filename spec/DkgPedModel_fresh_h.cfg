SPECIFICATION Spec
INVARIANT Inv
PROPERTY Final
CONSTANTS N = 4 T = 3 F = 1 Re = FALSE Dealer = 0 HonestDealer = TRUE Timeouts = TRUE OneWord = FALSE
CHECK_DEADLOCK FALSE

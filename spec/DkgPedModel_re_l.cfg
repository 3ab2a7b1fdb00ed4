SPECIFICATION Spec
INVARIANT Inv
PROPERTY Final
CONSTANTS N = 3 T = 3 F = 0 Re = TRUE Dealer = 3 HonestDealer = FALSE Timeouts = TRUE OneWord = FALSE
CHECK_DEADLOCK FALSE

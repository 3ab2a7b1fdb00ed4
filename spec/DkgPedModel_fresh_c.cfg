SPECIFICATION Spec
INVARIANT Inv
PROPERTY Final
CONSTANTS N = 3 T = 2 F = 1 Re = FALSE Dealer = 2 HonestDealer = FALSE Timeouts = TRUE OneWord = FALSE
CHECK_DEADLOCK FALSE

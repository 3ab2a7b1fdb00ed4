SPECIFICATION Spec
INVARIANT Inv
PROPERTY Final
CONSTANTS N = 3 T = 2 F = 1 Re = FALSE Dealer = 2 HonestDealer = FALSE Timeouts = FALSE OneWord = TRUE
CHECK_DEADLOCK FALSE

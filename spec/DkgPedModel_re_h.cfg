SPECIFICATION Spec
INVARIANT Inv
PROPERTY Final
CONSTANTS N = 4 T = 3 F = 1 Re = TRUE Dealer = 0 HonestDealer = TRUE Timeouts = FALSE OneWord = TRUE
CHECK_DEADLOCK FALSE

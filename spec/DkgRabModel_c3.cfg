SPECIFICATION Spec
INVARIANT Inv
PROPERTY Final
CONSTANTS
  N = 4
  T = 3
  F = 1
  HonestDealer = FALSE
  Reveals = 1
  Help = TRUE
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT Inv
PROPERTY Final
CONSTANTS
  N = 4
  T = 2
  F = 1
  HonestDealer = TRUE
  Reveals = 1
  Help = FALSE
CHECK_DEADLOCK FALSE

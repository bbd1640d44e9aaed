SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3}
  MaxArr = 2
  C1 = 1
  C2 = 1
  P = 2
  F = 2
  T = 2
  D = 1
  Stall = TRUE
  Bound = 8
  Guarded = TRUE
  ByEntry = TRUE
INVARIANTS Fresh OnePlace Sizes 
CHECK_DEADLOCK FALSE
PROPERTY Answered

SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3}
  MaxArr = 2
  C1 = 1
  C2 = 2
  P = 2
  F = 2
  T = 10
  D = 2
  Stall = FALSE
  Bound = 6
  Guarded = TRUE
  ByEntry = TRUE
INVARIANTS Fresh OnePlace Sizes NoRefusal
CHECK_DEADLOCK FALSE
PROPERTY Answered

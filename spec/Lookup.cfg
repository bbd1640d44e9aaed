SPECIFICATION Spec
CONSTANTS
  Keys = {0, 1, 2, 3}
  MaxRows = 5
  Round = 3
  Behind = TRUE
INVARIANTS Sorted NothingLost AnswerStays Searches
CHECK_DEADLOCK FALSE

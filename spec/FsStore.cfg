SPECIFICATION Spec
CONSTANTS
  Writers = {1, 2, 3}
  Readers = {4, 5}
  Pieces = 2
  Atomic = TRUE
  Unique = TRUE
  Exact = TRUE
INVARIANTS OldOrNew AtRest Clean
CHECK_DEADLOCK FALSE

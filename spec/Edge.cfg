SPECIFICATION Spec
CONSTANTS
  Runs = {"r1", "r2"}
  Budget = 4
  Faults = 1
  First = TRUE
  Dropped = TRUE
INVARIANTS NotEmpty InOrder Bounded Owned
PROPERTY Answered
CHECK_DEADLOCK FALSE

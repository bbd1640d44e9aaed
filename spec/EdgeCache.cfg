SPECIFICATION Spec
CONSTANTS
  Runs = {"r1", "r2"}
  Logs = {"A", "B"}
  MaxSize = 3
  Cuts = 1
  ByBackend = TRUE
  Lifetimes = TRUE
  Whole = TRUE
INVARIANTS Own Fresh Match Healed
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxRuns = 3
  MaxBad = 2
  Order <- OrderC
  Checked = TRUE
INVARIANTS Success Serves Whole
CHECK_DEADLOCK FALSE

CONSTANT TW = 4
INIT Init
NEXT Next
INVARIANT PathOK ConsOK
CHECK_DEADLOCK FALSE

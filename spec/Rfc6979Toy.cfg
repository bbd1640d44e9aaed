SPECIFICATION Spec
CONSTANT Jobs = 63
INVARIANT Inv1
CHECK_DEADLOCK FALSE

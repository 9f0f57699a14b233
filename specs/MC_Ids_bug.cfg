CONSTANTS P = {1, 2, 3} Calls = 3 Atomic = FALSE
SPECIFICATION ISpec
INVARIANT Allowed
CHECK_DEADLOCK FALSE

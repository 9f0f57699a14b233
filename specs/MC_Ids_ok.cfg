CONSTANTS P = {1, 2, 3} Calls = 3 Atomic = TRUE
SPECIFICATION ISpec
INVARIANT Allowed
CHECK_DEADLOCK FALSE

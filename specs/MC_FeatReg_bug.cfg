CONSTANTS P = {1, 2, 3} C = {1, 2, 3} Calls = 2 Room = 2 Locked = FALSE
SPECIFICATION ISpec
INVARIANTS Allowed OneEach InTheEnd
CHECK_DEADLOCK FALSE

CONSTANTS R = {"a", "b"} Atomic = FALSE Pieces = 2
SPECIFICATION ISpec
INVARIANTS Allowed Complete
CHECK_DEADLOCK FALSE

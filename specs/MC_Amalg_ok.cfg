CONSTANTS R = {"a", "b"} Atomic = TRUE Pieces = 2
SPECIFICATION ISpec
INVARIANTS Allowed Complete
CHECK_DEADLOCK FALSE

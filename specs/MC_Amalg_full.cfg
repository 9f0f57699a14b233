CONSTANTS R = {"a", "b", "d"} Atomic = TRUE Pieces = 2
SPECIFICATION ISpec
INVARIANTS Allowed Complete
CHECK_DEADLOCK FALSE

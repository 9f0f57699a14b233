CONSTANTS P = {p1, p2, p3} Names = {"a", "b"} Rounds = 2 AtomicFind = TRUE AtomicUnref = TRUE
SPECIFICATION ISpec
INVARIANTS OnePerName NoUseAfterFree FreedOnce NothingLeft
CHECK_DEADLOCK FALSE

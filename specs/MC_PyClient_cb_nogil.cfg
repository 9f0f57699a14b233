SPECIFICATION Spec
CONSTANTS N = 4
Callback = TRUE
Bug = "nogil"
INVARIANTS InOrder NothingLate OnlyWithLock AllAtEnd
PROPERTIES Returns
CHECK_DEADLOCK FALSE

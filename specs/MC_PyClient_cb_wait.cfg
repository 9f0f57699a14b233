SPECIFICATION Spec
CONSTANTS N = 4
Callback = TRUE
Bug = "wait"
INVARIANTS InOrder NothingLate OnlyWithLock AllAtEnd
PROPERTIES Returns
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 4
Callback = FALSE
Bug = "none"
INVARIANTS InOrder NothingLate OnlyWithLock AllAtEnd
PROPERTIES Returns
CHECK_DEADLOCK FALSE

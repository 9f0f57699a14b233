SPECIFICATION Spec
CONSTANTS N = 4
Callback = TRUE
Bug = "none"
INVARIANTS InOrder NothingLate OnlyWithLock AllAtEnd
PROPERTIES Returns
CHECK_DEADLOCK FALSE

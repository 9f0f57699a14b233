SPECIFICATION Spec
CONSTANTS N = 4
Callback = TRUE
Bug = "hold"
INVARIANTS InOrder NothingLate OnlyWithLock AllAtEnd
PROPERTIES Returns
CHECK_DEADLOCK FALSE

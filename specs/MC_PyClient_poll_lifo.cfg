SPECIFICATION Spec
CONSTANTS N = 4
Callback = FALSE
Bug = "lifo"
INVARIANTS InOrder NothingLate OnlyWithLock AllAtEnd
PROPERTIES Returns
CHECK_DEADLOCK FALSE

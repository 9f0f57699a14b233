SPECIFICATION Spec
CONSTANTS N = 4
Callback = TRUE
Bug = "eos"
INVARIANTS InOrder NothingLate OnlyWithLock AllAtEnd
PROPERTIES Returns
CHECK_DEADLOCK FALSE

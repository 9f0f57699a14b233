CONSTANTS N = 2 Waiters = {"a"} Stoppers = {"x"} Ends = FALSE Locked = TRUE WakeStream = FALSE
SPECIFICATION ISpec
INVARIANTS WaitMayReturn EosFits
PROPERTY Refines

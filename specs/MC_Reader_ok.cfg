CONSTANTS N = 3 Waiters = {"a", "b"} Stoppers = {"x", "y"} Ends = TRUE Locked = TRUE WakeStream = TRUE
SPECIFICATION ISpec
INVARIANTS WaitMayReturn EosFits
PROPERTY Refines

CONSTANTS N = 2 Waiters = {"a"} Stoppers = {} Ends = TRUE Locked = FALSE WakeStream = TRUE
SPECIFICATION ISpec
INVARIANTS WaitMayReturn EosFits
PROPERTY Refines

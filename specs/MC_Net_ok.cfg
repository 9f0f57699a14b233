CONSTANTS N = 4 Ends = TRUE Stopper = TRUE Locked = TRUE Wakes = TRUE
SPECIFICATION ISpec
INVARIANT Fits

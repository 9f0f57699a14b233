CONSTANTS N = 4 Ends = FALSE Stopper = TRUE Locked = TRUE Wakes = TRUE
SPECIFICATION ISpec
INVARIANT Fits

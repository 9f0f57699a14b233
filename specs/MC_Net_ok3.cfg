CONSTANTS N = 4 Ends = TRUE Stopper = FALSE Locked = TRUE Wakes = TRUE
SPECIFICATION ISpec
INVARIANT Fits

CONSTANTS N = 2 Ends = TRUE Stopper = FALSE Locked = FALSE Wakes = TRUE
SPECIFICATION ISpec
INVARIANT Fits

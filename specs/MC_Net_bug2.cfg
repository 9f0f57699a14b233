CONSTANTS N = 2 Ends = FALSE Stopper = TRUE Locked = TRUE Wakes = FALSE
SPECIFICATION ISpec
INVARIANT Fits

CONSTANTS MaxT = 5 Hz = 100 Bug = "none"
SPECIFICATION ISpec
INVARIANT Agrees NothingTwice
CHECK_DEADLOCK FALSE

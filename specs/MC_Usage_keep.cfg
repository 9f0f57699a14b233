CONSTANTS MaxT = 5 Hz = 100 Bug = "keep"
SPECIFICATION ISpec
INVARIANT Agrees NothingTwice
CHECK_DEADLOCK FALSE

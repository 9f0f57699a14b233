CONSTANTS MaxT = 5 Hz = 100 Bug = "lazy"
SPECIFICATION ISpec
INVARIANT Agrees NothingTwice
CHECK_DEADLOCK FALSE

CONSTANTS MaxT = 5 Hz = 100 Bug = "failmoves"
SPECIFICATION ISpec
INVARIANT Agrees NothingTwice
CHECK_DEADLOCK FALSE

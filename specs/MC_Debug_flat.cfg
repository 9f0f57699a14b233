CONSTANTS Events = 2 Bug = "flat"
SPECIFICATION DSpec
INVARIANTS EachPrinted Counts Unambiguous
CHECK_DEADLOCK FALSE

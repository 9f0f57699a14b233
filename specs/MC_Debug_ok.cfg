CONSTANTS Events = 2 Bug = "ok"
SPECIFICATION DSpec
INVARIANTS EachPrinted Counts Unambiguous
CHECK_DEADLOCK FALSE

CONSTANTS Events = 3 Bug = "ok"
SPECIFICATION DSpec
INVARIANTS EachPrinted Counts Unambiguous
CHECK_DEADLOCK FALSE

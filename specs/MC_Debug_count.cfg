CONSTANTS Events = 2 Bug = "count"
SPECIFICATION DSpec
INVARIANTS EachPrinted Counts Unambiguous
CHECK_DEADLOCK FALSE

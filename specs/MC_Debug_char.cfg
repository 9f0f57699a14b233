CONSTANTS Events = 2 Bug = "char"
SPECIFICATION DSpec
INVARIANTS EachPrinted Counts Unambiguous
CHECK_DEADLOCK FALSE

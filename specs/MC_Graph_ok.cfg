SPECIFICATION Spec
CONSTANTS T = 3
 MaxN = 3
 Labels = {"f", "g"}
 LongFirst = TRUE
INVARIANT RightGraph
INVARIANT AddsUp
CHECK_DEADLOCK FALSE

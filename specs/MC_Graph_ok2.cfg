SPECIFICATION Spec
CONSTANTS T = 4
 MaxN = 4
 Labels = {"f", "g"}
 LongFirst = TRUE
INVARIANT RightGraph
INVARIANT AddsUp
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS T = 3
 MaxN = 2
 Labels = {"f", "g"}
 LongFirst = FALSE
INVARIANT RightGraph
INVARIANT AddsUp
CHECK_DEADLOCK FALSE

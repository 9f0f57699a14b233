CONSTANTS MaxStarts = 4 MaxTime = 4
SPECIFICATION MSpec
INVARIANTS Balanced Nested Sorted Durations Labels
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT ThreadsDistinct
CONSTRAINT Progress
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

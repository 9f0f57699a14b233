SPECIFICATION Spec
INVARIANT Props
CONSTRAINT Progress
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

CONSTANT Room = 30
SPECIFICATION Spec
INVARIANT OneEach
CONSTRAINT Progress
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

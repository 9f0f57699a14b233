SPECIFICATION Spec
CONSTRAINT Progress
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANT Hz = 100

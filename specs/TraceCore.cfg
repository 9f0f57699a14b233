CONSTANT MaxFeatures = 30
SPECIFICATION Spec
INVARIANT Sane
CONSTRAINT Progress
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

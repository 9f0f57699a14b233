CONSTANT MaxEvents = 4
SPECIFICATION Spec
INVARIANTS RoundTrip Cuts FlatOk
CHECK_DEADLOCK FALSE

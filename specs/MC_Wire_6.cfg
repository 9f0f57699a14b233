CONSTANT MaxEvents = 6
SPECIFICATION Spec
INVARIANTS RoundTrip Cuts FlatOk
CHECK_DEADLOCK FALSE

CONSTANT MaxEvents = 5
SPECIFICATION Spec
INVARIANTS RoundTrip Cuts FlatOk
CHECK_DEADLOCK FALSE

CONSTANTS P = {"p", "q"} Rounds = 3 AnnounceLocked = TRUE CompareText = TRUE Locked = TRUE
SPECIFICATION Spec
INVARIANTS AnnouncedFirst Once SameAndDistinct
CHECK_DEADLOCK FALSE

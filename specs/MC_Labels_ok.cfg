CONSTANTS P = {"p", "q"} Rounds = 2 AnnounceLocked = TRUE CompareText = TRUE Locked = TRUE
SPECIFICATION Spec
INVARIANTS AnnouncedFirst Once SameAndDistinct
CHECK_DEADLOCK FALSE

CONSTANTS P = {"p", "q"} Rounds = 2 AnnounceLocked = TRUE CompareText = FALSE Locked = TRUE
SPECIFICATION Spec
INVARIANTS AnnouncedFirst Once SameAndDistinct
CHECK_DEADLOCK FALSE

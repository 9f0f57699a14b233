CONSTANTS N = 4 KeepLast = TRUE
SPECIFICATION HSpec
INVARIANTS Once AfterIncluded DeclaredOnly NeverStuck
CHECK_DEADLOCK FALSE

CONSTANTS N = 4 KeepLast = FALSE
SPECIFICATION HSpec
INVARIANTS Once AfterIncluded DeclaredOnly NeverStuck
CHECK_DEADLOCK FALSE

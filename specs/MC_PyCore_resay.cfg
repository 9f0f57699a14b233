SPECIFICATION Spec
CONSTANTS Names = {"f", "g"}
MaxCalls = 6
MaxDepth = 4
Bug = "resay"
INVARIANTS OnePerCall Balanced NamesOnce NameFirst
CHECK_DEADLOCK FALSE

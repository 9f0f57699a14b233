SPECIFICATION Spec
CONSTANTS Handles = {1, 2}
 Names = {"a", "b"}
 Klasses = {1, 2}
 Cells = {1, 2, 3, 4, 5}
 Texts = {"x", "y"}
 ASSIGN = "swap"
 MERGE = "skip"
 HOLD = TRUE
INVARIANTS NoDangling NoSharing NoLeak FieldsAlive Values
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Timelines = {t1, t2, t3}
Names = {"a", "b"}
Bug = "leakref"
INVARIANTS ReleasedOnce NothingLost Complete Others Counted
CHECK_DEADLOCK FALSE

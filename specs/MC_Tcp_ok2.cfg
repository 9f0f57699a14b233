CONSTANTS Dels = {"e1", "e2"} Clients = {"c1"} Stoppers = {"x", "y"} Cap = 1 Atomic = TRUE Detach = TRUE Rest = TRUE MayLeave = FALSE
SPECIFICATION ISpec
INVARIANTS ServedRight LeftRight AllClosed

CONSTANTS Dels = {"e1", "e2"} Clients = {"c1"} Stoppers = {"x"} Cap = 1 Atomic = FALSE Detach = TRUE Rest = TRUE MayLeave = FALSE
SPECIFICATION ISpec
INVARIANTS ServedRight LeftRight AllClosed

CONSTANTS Dels = {"e1", "e2"} Clients = {"c1", "c2"} Stoppers = {"x"} Cap = 3 Atomic = TRUE Detach = TRUE Rest = TRUE MayLeave = TRUE
SPECIFICATION ISpec
INVARIANTS ServedRight LeftRight AllClosed

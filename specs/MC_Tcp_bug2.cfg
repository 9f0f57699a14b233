CONSTANTS Dels = {"e1"} Clients = {"c1"} Stoppers = {"x"} Cap = 3 Atomic = TRUE Detach = FALSE Rest = TRUE MayLeave = FALSE
SPECIFICATION ISpec
INVARIANTS ServedRight LeftRight AllClosed

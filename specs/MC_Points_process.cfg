CONSTANTS P = {"p", "q"} Sites = {"s", "t"} Rounds = 2 LOCKED = TRUE ONCE = "process"
SPECIFICATION Spec
INVARIANTS Named Mine OnlyOnce
CHECK_DEADLOCK FALSE

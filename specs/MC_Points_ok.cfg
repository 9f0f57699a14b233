CONSTANTS P = {"p", "q"} Sites = {"s", "t"} Rounds = 2 LOCKED = TRUE ONCE = "thread"
SPECIFICATION Spec
INVARIANTS Named Mine OnlyOnce
CHECK_DEADLOCK FALSE

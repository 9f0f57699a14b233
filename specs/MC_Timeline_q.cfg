CONSTANTS
    Threads <- mcThreadsQ
    Listeners <- mcListeners
    Script <- mcScriptQ
    Size <- mcSize
    Cap = 3
    Bug = "none"
SPECIFICATION Spec
INVARIANTS Inv Conserved
PROPERTY Termination
CHECK_DEADLOCK TRUE

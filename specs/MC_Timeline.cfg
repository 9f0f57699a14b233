CONSTANTS
    Threads <- mcThreads
    Listeners <- mcListeners
    Script <- mcScript
    Size <- mcSize
    Cap = 3
    Bug = "none"
SPECIFICATION Spec
INVARIANTS Inv Conserved
PROPERTY Termination
CHECK_DEADLOCK TRUE

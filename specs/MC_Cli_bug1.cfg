SPECIFICATION Spec
CONSTANTS Variant = "last" MaxArgs = 4 MaxOpts = 1
INVARIANTS Agrees LAgrees Sound
CHECK_DEADLOCK FALSE

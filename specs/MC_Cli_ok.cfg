SPECIFICATION Spec
CONSTANTS Variant = "ok" MaxArgs = 3 MaxOpts = 2
INVARIANTS Agrees LAgrees Sound
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Variant = "novalue" MaxArgs = 2 MaxOpts = 1
INVARIANTS Agrees LAgrees Sound
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Variant = "noskip" MaxArgs = 3 MaxOpts = 1
INVARIANTS Agrees LAgrees Sound
CHECK_DEADLOCK FALSE

CONSTANTS MaxFeatures = 1 MaxT = 2 MaxL = 0 MaxE = 0 MaxUp = 1 MaxK = 1 MaxC = 2
SPECIFICATION MSpec
INVARIANTS Sane OneGroup Isolated Pairs
PROPERTIES Monotone Stable Kept
CHECK_DEADLOCK TRUE

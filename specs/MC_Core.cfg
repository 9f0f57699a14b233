CONSTANTS MaxFeatures = 1 MaxT = 3 MaxL = 2 MaxE = 2 MaxUp = 2 MaxK = 1 MaxC = 0
SPECIFICATION MSpec
INVARIANTS Sane OneGroup Isolated Pairs
PROPERTIES Monotone Stable Kept
CHECK_DEADLOCK TRUE

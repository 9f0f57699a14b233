CONSTANTS MaxFeatures = 30 MaxT = 4 MaxL = 5 MaxE = 8 MaxUp = 3 MaxK = 3 MaxC = 5 H = 24 Feat = TRUE
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE

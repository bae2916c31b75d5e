SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 4} Labs = {3, 7} MaxRows = 3 MaxFits = 1 Gauss = TRUE
INVARIANTS C19_Statistics C19_Variance C19_Distribution C19_Prior
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS R = 3 Lams = {0, 1, 2} Steps = 4 RN = 1 RD = 1 Curv = 1
INVARIANT C13_Descent
PROPERTY C13_Downhill
CHECK_DEADLOCK FALSE

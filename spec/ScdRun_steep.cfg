SPECIFICATION Spec
CONSTANTS R = 3 Lams = {0, 2} Steps = 1 RN = 2 RD = 1 Curv = 1
INVARIANT C13_Descent
PROPERTY C13_Downhill
CHECK_DEADLOCK FALSE

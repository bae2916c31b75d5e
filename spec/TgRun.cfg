SPECIFICATION Spec
CONSTANTS M = 3 Pens = {0, 1, 2} Steps = 6
INVARIANTS C12_Shrinks C12_Bounded C12_Exact C12_Exact2
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 3 XV = 1 YV = 2 WV = 2 S = 64
INVARIANTS C17_Optimal C17_Shrinks C17_LassoOptimal
CHECK_DEADLOCK FALSE

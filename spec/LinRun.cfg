SPECIFICATION Spec
CONSTANTS N = 2 XV = 2 YV = 2 WV = 2 S = 64
INVARIANTS C17_Optimal C17_Shrinks C17_LassoOptimal
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 3} MaxLen = 5 Shift = 5000
INVARIANTS C27_Sum C27_Var C27_VarShift C27_Mode C27_Median C27_Max C27_LogSumExp C27_Softmax C27_Gini C27_Entropy
PROPERTIES C27_Terminates
CHECK_DEADLOCK FALSE

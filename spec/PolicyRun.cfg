SPECIFICATION Spec
CONSTANTS G = 2 Steps = 5
INVARIANTS C14_Momentum C14_Nesterov
CHECK_DEADLOCK FALSE

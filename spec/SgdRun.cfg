SPECIFICATION Spec
CONSTANTS N = 5 B = 2 Shuffle = TRUE MaxIter = 2 Pat = 1 TolB = 1 Losses = {0, 1}
INVARIANTS C09 C10
PROPERTY Terminates
CHECK_DEADLOCK FALSE

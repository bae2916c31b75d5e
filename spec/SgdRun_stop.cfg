SPECIFICATION Spec
CONSTANTS N = 2 B = 2 Shuffle = FALSE MaxIter = 6 Pat = 2 TolB = 1 Losses = {0, 1, 2, 3}
INVARIANTS C09 C10
PROPERTY Terminates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS NB = 3 G = 2 Steps = 7
INVARIANT C11
CHECK_DEADLOCK FALSE

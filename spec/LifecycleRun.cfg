SPECIFICATION Spec
CONSTANTS Objects = {1, 2} Sets = {1, 2, 3, 4} Queries = {0, 3} MaxSteps = 5 Forgets = TRUE Fresh = TRUE Deep = TRUE
INVARIANT C25_Function
CHECK_DEADLOCK FALSE

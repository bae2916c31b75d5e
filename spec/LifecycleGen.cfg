SPECIFICATION Spec
CONSTANTS Objects = {1, 2} Sets = {1, 2, 3} Questions = {0, 1, 2, 3} Rows = {1, 2, 3, 4, 5, 6} MaxLen = 24
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 5} MaxRows = 2 MaxLen = 3
INVARIANTS C06_Encoding C06_Lossless C06_OnePlace
PROPERTIES C06_Terminates
CHECK_DEADLOCK FALSE

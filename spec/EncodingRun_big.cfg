SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 5} MaxRows = 3 MaxLen = 3
INVARIANTS C06_Encoding C06_Lossless C06_OnePlace
CHECK_DEADLOCK FALSE

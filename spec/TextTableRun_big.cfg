SPECIFICATION Spec
CONSTANTS Alphabet = {49, 48, 46, 45, 32, 10} MaxLen = 6 Loads = 1
INVARIANTS C08_Table C08_EveryLine
PROPERTIES C08_Terminates
CHECK_DEADLOCK FALSE

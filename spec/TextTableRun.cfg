SPECIFICATION Spec
CONSTANTS Alphabet = {49, 48, 46, 45, 32, 10} MaxLen = 4 Loads = 2
INVARIANTS C08_Table C08_EveryLine
CHECK_DEADLOCK FALSE

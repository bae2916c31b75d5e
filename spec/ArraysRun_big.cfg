SPECIFICATION Spec
CONSTANTS Ops = {"dedup", "combine", "merge", "differ", "unique"} Vals = {0, 1, 3} MaxLen = 5
INVARIANTS C26_Dedup C26_Combinations C26_Merge C26_Difference C26_Unique C26_Sorting
PROPERTIES C26_Terminates
CHECK_DEADLOCK FALSE

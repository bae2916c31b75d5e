SPECIFICATION Spec
CONSTANTS MemSize = 2 Past = 3 MaxIter = 7 MaxTrials = 3 Policy = "backtracking"
INVARIANTS C15_Memory C15_Past C15_Bracket C15_Stops
PROPERTY C15_Terminates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MemSize = 3 Past = 2 MaxIter = 5 MaxTrials = 3 Policy = "bracketing"
INVARIANTS C15_Memory C15_Past C15_Bracket C15_Stops
PROPERTY C15_Terminates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 3, 4} MaxRows = 4 Dim = 1 K = 2 MaxIter = 4 Stops = {1, 60000}
INVARIANTS C22_InRange C22_FixedPoint C22_Settled C22_Outcomes
PROPERTIES C22_Descent C22_Terminates
CHECK_DEADLOCK FALSE

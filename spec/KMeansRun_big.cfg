SPECIFICATION Spec
CONSTANTS Vals = {0, 2, 3} MaxRows = 4 Dim = 2 K = 3 MaxIter = 5 Stops = {1, 150000}
INVARIANTS C22_InRange C22_FixedPoint C22_Settled C22_Outcomes
PROPERTIES C22_Descent C22_Terminates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 3}
  Rows = 4
  Dim = 1
  Steps = 3
  Shares = {100000, 500000, 800000}
  Types = {"full", "tied"}
INVARIANTS C23_Weights C23_Range C23_Symmetric C23_Posterior
PROPERTY C23_Ascent
CHECK_DEADLOCK FALSE

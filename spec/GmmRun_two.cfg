SPECIFICATION Spec
CONSTANTS
  Vals = {0, 2}
  Rows = 4
  Dim = 2
  Steps = 2
  Shares = {200000, 700000}
  Types = {"full", "tied"}
INVARIANTS C23_Weights C23_Range C23_Symmetric C23_Posterior
PROPERTY C23_Ascent
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  N = 3
  Coord = {0,1,2}
  Labels = {7,8}
INVARIANTS BestSoFar SizeRight Admitted VoteOkExact
CHECK_DEADLOCK FALSE

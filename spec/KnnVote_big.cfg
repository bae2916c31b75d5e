SPECIFICATION Spec
CONSTANTS
  N = 4
  Coord = {0,1,2}
  Labels = {7,8,9}
INVARIANTS BestSoFar SizeRight Admitted VoteOkExact
CHECK_DEADLOCK FALSE

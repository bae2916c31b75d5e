SPECIFICATION Spec
CONSTANTS Pts = {1, 3} WInit = {0, 2} MaxUpd = 12 ZV = {0, 1, 30} S = 1024
INVARIANTS C18_Ends C18_OwnLabels C18_ProbFavoursBest
CHECK_DEADLOCK FALSE

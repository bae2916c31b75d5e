SPECIFICATION Spec
CONSTANTS Vals = {0, 1} Labs = {0, 1, 3} MaxRows = 4 Dim = 2 Kinds = {"gini", "mse", "entropy", "mae"} SplitSizes = {2, 3} LeafSizes = {0, 2} Depths = {0, 5} Decs = {0, 1500}
INVARIANTS C20_Partition C20_EveryQueryHasOneLeaf C20_Limits C20_Greedy C21_OneFeatureExact C21_MeanWithinTargets C20_JudgeAcceptsTheTree
PROPERTIES C20_Purer C20_Terminates
CHECK_DEADLOCK FALSE

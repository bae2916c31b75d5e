SPECIFICATION Spec
CONSTANTS MaxRows = 6 Vals = {0, 1} Dens = {3, 4}
INVARIANTS C07_Permutation C07_Paired C07_Partition C07_Sides C07_Sizes
CHECK_DEADLOCK FALSE

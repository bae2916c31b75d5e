SPECIFICATION Spec
CONSTANTS MaxRows = 4 Vals = {0, 1} Dens = {2, 3, 4}
INVARIANTS C07_Permutation C07_Paired C07_Partition C07_Sides C07_Sizes
PROPERTIES C07_Terminates
CHECK_DEADLOCK FALSE

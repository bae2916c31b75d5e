SPECIFICATION GSpec
CONSTANTS
  Itemsets <- MixedSets
  Leafs = {1, 2, 3, 4}
  Moduli = {1, 2, 3, 5}
CHECK_DEADLOCK FALSE

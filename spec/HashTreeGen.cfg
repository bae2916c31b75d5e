SPECIFICATION GSpec
CONSTANTS
  Itemsets <- GenSets
  Leafs = {1, 2, 3, 4}
  Moduli = {1, 2, 3, 5}
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Itemsets <- MoreSets
  Leafs = {1, 2, 3}
  Moduli = {1, 2, 3}
CONSTRAINT Small
INVARIANTS SupportExact StoredOnce Findable InnerEmpty BelowCapacity
CHECK_DEADLOCK FALSE

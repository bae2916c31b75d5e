SPECIFICATION Spec
CONSTANTS
  N = 5
  Coord = {0, 1, 2, 3}
  Dim = 1
  Leaf = {1, 2}
  Metrics = {"manhattan"}
  Modes = {"knn", "radius"}
INVARIANTS InBox NothingLost EachOnce Exact
CHECK_DEADLOCK FALSE

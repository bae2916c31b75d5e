SPECIFICATION Spec
CONSTANTS
  N = 4
  Coord = {0, 1, 2}
  Dim = 2
  Leaf = {1}
  Metrics = {"euclidean"}
  Modes = {"knn", "radius"}
INVARIANTS InBox NothingLost EachOnce Exact
CHECK_DEADLOCK FALSE

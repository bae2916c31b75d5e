SPECIFICATION Spec
CONSTANTS
  N = 4
  Coord = {0, 1, 2}
  Dim = 2
  Leaf = {1, 2}
  Metrics = {"euclidean", "manhattan", "chebyshev"}
  Modes = {"knn", "radius"}
INVARIANTS InBox NothingLost EachOnce Exact
CHECK_DEADLOCK FALSE

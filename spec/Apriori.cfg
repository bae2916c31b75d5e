SPECIFICATION Spec
CONSTANTS
  Items = {1,2,3}
  MaxDb = 3
INVARIANTS Sound Complete LevelComplete DownClosed
CHECK_DEADLOCK FALSE

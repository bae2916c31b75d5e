SPECIFICATION Spec
CONSTANTS
  Items = {1,2,3,4}
  MaxDb = 3
INVARIANTS Sound Complete LevelComplete DownClosed
CHECK_DEADLOCK FALSE

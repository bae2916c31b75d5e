SPECIFICATION Spec
CONSTANTS
  Vals = {0, 3, 4, 12}
  MaxRows = 3
  K = 1
  Fits = 1
INVARIANTS C24_Components C24_Projections C24_Isometry C24_Covariance
CHECK_DEADLOCK FALSE

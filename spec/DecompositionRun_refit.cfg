SPECIFICATION Spec
CONSTANTS
  Vals = {0, 5}
  MaxRows = 3
  K = 2
  Fits = 2
INVARIANTS C24_Components C24_Projections C24_Isometry C24_Covariance
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Rows = 3 Columns = 3 Span = 1 Sym = FALSE Pivoting = TRUE
INVARIANTS C28_Partial C28_LU C28_Determinant
CHECK_DEADLOCK FALSE

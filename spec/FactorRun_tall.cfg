SPECIFICATION Spec
CONSTANTS Rows = 3 Columns = 2 Span = 1 Sym = FALSE Pivoting = TRUE
INVARIANTS C28_Partial C28_LU
CHECK_DEADLOCK FALSE

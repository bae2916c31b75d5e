SPECIFICATION Spec
CONSTANTS Rows = 2 Columns = 3 Span = 2 Sym = FALSE Pivoting = TRUE
INVARIANTS C28_Partial C28_LU
CHECK_DEADLOCK FALSE

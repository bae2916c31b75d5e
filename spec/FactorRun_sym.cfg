SPECIFICATION Spec
CONSTANTS Rows = 3 Columns = 3 Span = 2 Sym = TRUE Pivoting = FALSE
INVARIANTS C28_Partial C28_Definite
CHECK_DEADLOCK FALSE

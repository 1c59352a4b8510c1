SPECIFICATION Spec
CONSTANTS
  Contexts = {"leap", "autumn", "winter", "quarter"}
  Vecs <- VecsQ
  Rows <- RowsQ
  Dims <- DimsQ
  Depth = 4
  Bases = 2
INVARIANTS Consistent
CHECK_DEADLOCK FALSE

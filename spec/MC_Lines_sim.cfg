SPECIFICATION SimSpec
CONSTANTS
  Contexts = {"leap", "spring", "autumn", "gashour", "gasday", "quarter", "months", "years", "fourth", "winter", "fiscal", "trimest"}
  Vecs <- VecsQ
  Rows <- RowsT
  Dims <- DimsT
  Depth = 10
  Bases = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE

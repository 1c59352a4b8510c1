SPECIFICATION Spec
CONSTANTS
  Contexts = {"leap", "spring", "autumn", "gashour", "gasday", "quarter", "months", "years", "fourth", "winter", "fiscal", "trimest"}
  Vecs <- VecsQ
  Rows <- RowsQ
  Dims <- DimsQ
  Depth = 2
  Bases = 1
INVARIANTS Children
CHECK_DEADLOCK FALSE

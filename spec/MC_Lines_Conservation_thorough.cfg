SPECIFICATION Spec
CONSTANTS
  Contexts = {"leap", "spring", "autumn", "gashour", "gasday", "quarter", "months", "years", "fourth", "winter", "fiscal", "trimest"}
  Vecs <- VecsQ
  Rows <- RowsQ
  Dims <- DimsT
  Depth = 3
  Bases = 2
INVARIANTS Conservation
CHECK_DEADLOCK FALSE

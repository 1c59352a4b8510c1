SPECIFICATION Spec
CONSTANTS
  Contexts = {"leap", "autumn", "gashour", "gasday", "quarter", "trimest"}
  Vecs <- VecsQ
  Rows <- RowsQ
  Dims <- DimsQ
  Depth = 2
  Bases = 1
INVARIANTS Conservation
CHECK_DEADLOCK FALSE

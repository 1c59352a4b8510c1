SPECIFICATION SimSpec
CONSTANTS
  Contexts = {"leap", "spring", "autumn", "gashour", "gasday", "quarter", "months", "years", "fourth", "winter", "fiscal", "trimest"}
  Rows <- RowsQ
  Vecs <- VecsQ
  Srcs = {"none", "some", "full", "zero"}
  Depth = 8
  Bases = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE

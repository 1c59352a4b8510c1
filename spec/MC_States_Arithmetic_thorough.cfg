SPECIFICATION Spec
CONSTANTS
  Contexts = {"leap", "spring", "autumn", "gashour", "gasday", "quarter", "months", "years", "fourth", "winter", "fiscal", "trimest"}
  Rows <- RowsQ
  Vecs <- VecsQ
  Srcs = {"none", "some", "full", "zero"}
  Depth = 2
  Bases = 1
INVARIANTS Arithmetic Cutting Resampling
CHECK_DEADLOCK FALSE

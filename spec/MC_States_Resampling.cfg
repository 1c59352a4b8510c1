SPECIFICATION Spec
CONSTANTS
  Contexts = {"gasday", "quarter", "months", "trimest"}
  Rows <- RowsQ
  Vecs <- VecsQ
  Srcs = {"none", "some", "full"}
  Depth = 1
  Bases = 1
INVARIANTS Resampling
CHECK_DEADLOCK FALSE

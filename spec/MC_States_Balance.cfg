SPECIFICATION Spec
CONSTANTS
  Contexts = {"spring"}
  Rows <- RowsQ
  Vecs <- VecsQ
  Srcs = {"none", "some", "full"}
  Depth = 2
  Bases = 1
INVARIANTS Balance Parts3
CHECK_DEADLOCK FALSE

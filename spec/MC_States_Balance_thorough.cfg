SPECIFICATION Spec
CONSTANTS
  Contexts = {"leap", "autumn", "winter"}
  Rows <- RowsQ
  Vecs <- VecsQ
  Srcs = {"some", "full"}
  Depth = 3
  Bases = 2
INVARIANTS Balance Parts3
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Contexts = {"spring"}
  Rows <- RowsQ
  Vecs <- VecsQ
  Srcs = {"some", "full"}
  Depth = 2
  Bases = 1
INVARIANTS Editing
CHECK_DEADLOCK FALSE

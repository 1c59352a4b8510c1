SPECIFICATION Spec
CONSTANTS
  Contexts = {"leap", "autumn", "winter"}
  Rows <- RowsQ
  Vecs <- VecsQ
  Srcs = {"some", "full"}
  Depth = 3
  Bases = 2
INVARIANTS Editing
CHECK_DEADLOCK FALSE

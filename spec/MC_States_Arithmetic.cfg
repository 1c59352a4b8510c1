SPECIFICATION Spec
CONSTANTS
  Contexts = {"months"}
  Rows <- RowsQ
  Vecs <- VecsQ
  Srcs = {"some", "full"}
  Depth = 2
  Bases = 1
INVARIANTS Arithmetic Cutting
CHECK_DEADLOCK FALSE

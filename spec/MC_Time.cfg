SPECIFICATION Spec
CONSTANTS
  Tzs = {"none", "Europe/Berlin"}
  Fs = {"15min", "h", "D", "MS", "QS", "YS"}
  Keep = FALSE
  Depth = 1
INVARIANTS FloorCeil Nesting Partition
CHECK_DEADLOCK FALSE

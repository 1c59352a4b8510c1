SPECIFICATION Spec
CONSTANTS
  Tzs = {"none", "Europe/Berlin", "Europe/London", "America/New_York", "Asia/Kolkata", "Australia/Sydney"}
  Fs = {"15min", "h", "D", "MS", "QS", "QS-FEB", "YS", "YS-APR"}
  Keep = FALSE
  Depth = 2
INVARIANTS FloorCeil Nesting Partition
CHECK_DEADLOCK FALSE

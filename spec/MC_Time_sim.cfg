SPECIFICATION SimSpec
CONSTANTS
  Tzs = {"none", "Europe/Berlin", "Europe/London", "America/New_York", "Asia/Kolkata", "Australia/Sydney"}
  Fs = {"15min", "h", "D", "MS", "QS", "YS"}
  Keep = TRUE
  Depth = 6
INVARIANTS Emit
CHECK_DEADLOCK FALSE

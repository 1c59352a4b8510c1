SPECIFICATION Spec
CONSTANTS
  Inputs <- PeakIn
INVARIANTS PeakLaws
CHECK_DEADLOCK FALSE

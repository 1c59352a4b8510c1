SPECIFICATION Spec
CONSTANTS
  Inputs <- PeakIn2
INVARIANTS PeakLaws
CHECK_DEADLOCK FALSE

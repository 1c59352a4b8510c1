SPECIFICATION Spec
CONSTANTS
  Inputs <- WavgIn
INVARIANTS WavgLaws
CHECK_DEADLOCK FALSE

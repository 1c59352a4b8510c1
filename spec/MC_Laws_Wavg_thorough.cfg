SPECIFICATION Spec
CONSTANTS
  Inputs <- WavgIn2
INVARIANTS WavgLaws
CHECK_DEADLOCK FALSE

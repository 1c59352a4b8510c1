SPECIFICATION Spec
CONSTANTS
  Inputs <- IsectIn2
INVARIANTS IsectLaws
CHECK_DEADLOCK FALSE

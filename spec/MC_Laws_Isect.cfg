SPECIFICATION Spec
CONSTANTS
  Inputs <- IsectIn
INVARIANTS IsectLaws
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Inputs <- BpoIn
INVARIANTS BpoLaws
CHECK_DEADLOCK FALSE

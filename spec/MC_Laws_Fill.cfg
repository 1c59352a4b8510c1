SPECIFICATION Spec
CONSTANTS
  Inputs <- FillIn
INVARIANTS FillLaws
CHECK_DEADLOCK FALSE

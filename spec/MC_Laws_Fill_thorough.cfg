SPECIFICATION Spec
CONSTANTS
  Inputs <- FillIn2
INVARIANTS FillLaws
CHECK_DEADLOCK FALSE

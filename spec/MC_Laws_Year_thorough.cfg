SPECIFICATION Spec
CONSTANTS
  Inputs <- YearIn2
INVARIANTS YearLaws
CHECK_DEADLOCK FALSE

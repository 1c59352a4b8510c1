SPECIFICATION Spec
CONSTANTS
  Inputs <- YearIn
INVARIANTS YearLaws
CHECK_DEADLOCK FALSE

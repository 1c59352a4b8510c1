SPECIFICATION Spec
CONSTANTS
  Inputs <- ProdIn
INVARIANTS HedgeLaws
CHECK_DEADLOCK FALSE

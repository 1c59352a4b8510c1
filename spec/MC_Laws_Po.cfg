SPECIFICATION Spec
CONSTANTS
  Inputs <- ProdIn
INVARIANTS PoLaws
CHECK_DEADLOCK FALSE

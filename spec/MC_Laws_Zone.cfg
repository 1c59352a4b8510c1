SPECIFICATION Spec
CONSTANTS
  Inputs <- ZoneIn
INVARIANTS ZoneLaws
CHECK_DEADLOCK FALSE

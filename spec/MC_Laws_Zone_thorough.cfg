SPECIFICATION Spec
CONSTANTS
  Inputs <- ZoneIn2
INVARIANTS ZoneLaws
CHECK_DEADLOCK FALSE

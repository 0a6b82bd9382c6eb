SPECIFICATION Spec
CONSTANTS
  NT = 2
  MAXPAD = 3
  EMIT = TRUE
INVARIANTS Same Whole Emit
CHECK_DEADLOCK FALSE

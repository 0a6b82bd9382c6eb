SPECIFICATION Spec
CONSTANTS
  EDDIES = {1, 2, 3}
  MAXOPS = 5
  EMIT = FALSE
INVARIANTS Consecutive Ordered Complete
PROPERTIES Grows
CHECK_DEADLOCK FALSE

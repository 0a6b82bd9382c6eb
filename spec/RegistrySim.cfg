SPECIFICATION Spec
CONSTANTS
  EDDIES = {1, 2, 3, 4}
  MAXOPS = 12
  EMIT = TRUE
INVARIANTS Consecutive Ordered Complete Emit
CHECK_DEADLOCK FALSE

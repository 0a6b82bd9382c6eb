SPECIFICATION Spec
CONSTANTS
  NX = 4
  NY = 3
  N = 3
  R2 = 4
  TRIES = 2
  FRAMES = 2
INVARIANTS Separated Placed
PROPERTIES Ends
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS PATHS = {1, 2, 3, 4}
  LEVELS = {1, 2, 3, 4}
  PALETTE = 9
  FEW = 4
  LEGENDBYINDEX = FALSE
INVARIANTS Shown NothingInvented
PROPERTIES Ends
CHECK_DEADLOCK FALSE

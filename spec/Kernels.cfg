SPECIFICATION Spec
CONSTANTS
  SIZE = 3
  STEPS = 2
  CENTRES = {0, 1, 2, 3, 4, 7}
INVARIANTS Peak Half Moves
PROPERTIES Stable Ends
CHECK_DEADLOCK FALSE

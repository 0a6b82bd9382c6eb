SPECIFICATION Spec
CONSTANTS AXES = {1, 2, 3, 4}
  EMIT = TRUE
INVARIANTS VerticesOn Determined Emit
PROPERTIES Follows
CONSTRAINT Small
CHECK_DEADLOCK FALSE

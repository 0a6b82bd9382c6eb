SPECIFICATION SimSpec
CONSTANTS LEVELS = 4
 DETS = 3
 POSITIONS = {0, 1, 2, 4}
 RADII = {1, 2, 3}
 SCORES = {1, 2, 3}
 EMIT = TRUE
INVARIANTS Faithful Accounted Emit
PROPERTIES Stable DropsExplained
CHECK_DEADLOCK FALSE

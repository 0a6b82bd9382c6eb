SPECIFICATION Spec
CONSTANTS LEVELS = 3
 DETS = 1
 POSITIONS = {0, 1, 2}
 RADII = {1, 2, 3}
 EMIT = FALSE
 SCORES = {1, 2, 3}
INVARIANTS Faithful Accounted
PROPERTIES Stable DropsExplained
CHECK_DEADLOCK FALSE

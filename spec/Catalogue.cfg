SPECIFICATION Spec
CONSTANTS LEVELS = 2
 DETS = 2
 POSITIONS = {0, 1, 2}
 RADII = {1, 2}
 EMIT = FALSE
 SCORES = {1, 2}
INVARIANTS Faithful Accounted
PROPERTIES Stable DropsExplained
CHECK_DEADLOCK FALSE

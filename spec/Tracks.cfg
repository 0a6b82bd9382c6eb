SPECIFICATION Spec
CONSTANTS TIMES = 3
 DETS = 2
 POSITIONS = {0, 1}
 RADII = {1, 2}
 NTIMES = {0, 1}
 EMIT = FALSE
INVARIANTS TypeOK Partition Linked Numbered LastRight
PROPERTIES Stable Ended Relational
CHECK_DEADLOCK FALSE

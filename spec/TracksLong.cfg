SPECIFICATION Spec
CONSTANTS TIMES = 5
 DETS = 1
 POSITIONS = {0, 1, 3}
 RADII = {1, 2}
 NTIMES = {0, 1, 2}
 EMIT = FALSE
INVARIANTS TypeOK Partition Linked Numbered LastRight
PROPERTIES Stable Ended Relational
CHECK_DEADLOCK FALSE

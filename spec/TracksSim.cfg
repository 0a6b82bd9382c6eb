SPECIFICATION SimSpec
CONSTANTS TIMES = 5
 DETS = 3
 POSITIONS = {0, 1, 2, 4}
 RADII = {1, 2, 3}
 NTIMES = {0, 1, 2, 3}
 EMIT = TRUE
INVARIANTS TypeOK Partition Linked Numbered LastRight Emit
PROPERTIES Stable Ended
CHECK_DEADLOCK FALSE

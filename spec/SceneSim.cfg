SPECIFICATION SimSpec
CONSTANTS TIMES = 7
 EDDIES = 3
 XS <- Steps3
 YS <- Steps3
 AMPS <- ManyAmps
 LEVELS <- ManyLevels
 NTIMES = {0, 1, 2}
 HOME = 20
 EMIT = TRUE
INVARIANTS Followed Single Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS TIMES = 4
 EDDIES = 2
 XS = {0, 1}
 YS = {0}
 AMPS <- FewAmps
 LEVELS <- FewLevels
 NTIMES = {0, 1}
 HOME = 20
 EMIT = FALSE
INVARIANTS Followed Single
CHECK_DEADLOCK FALSE

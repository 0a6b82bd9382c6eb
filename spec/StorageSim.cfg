SPECIFICATION Spec
CONSTANTS
  STEPS = 4
  VERSIONS = {1, 2}
  FOLDERS = {1, 2}
  FORMATS = {"csv", "json", "hd5", "nc"}
  MOST = 2
  MAXOPS = 4
  EMIT = TRUE
INVARIANTS Effect Complete Untouched OneVersion OnlineWritesNothing Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  STEPS = 2
  VERSIONS = {1, 2}
  FOLDERS = {1}
  FORMATS = {"csv", "hd5", "nc"}
  MOST = 1
  MAXOPS = 2
  EMIT = FALSE
INVARIANTS Effect Complete Untouched OneVersion OnlineWritesNothing
CHECK_DEADLOCK FALSE

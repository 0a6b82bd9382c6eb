SPECIFICATION Spec
CONSTANTS
  OBJECTS = {1, 2}
  LEVELS = {1, 2}
  TIMES = {0, 1}
  CRITERIA = {0, 1}
  FILTERS = {0, 1}
  MAXOPS = 5
  FORGET = TRUE
  EMIT = FALSE
INVARIANTS HistoryFree
PROPERTIES SettingsKept
VIEW View
CHECK_DEADLOCK FALSE

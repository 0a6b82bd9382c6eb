SPECIFICATION SimSpec
CONSTANTS
  OBJECTS = {1, 2, 3}
  LEVELS = {1, 2, 3, 4}
  TIMES = {0, 1}
  CRITERIA = {0, 1, 2, 3}
  FILTERS = {0, 1, 2, 3}
  MAXOPS = 14
  FORGET = TRUE
  EMIT = TRUE
INVARIANTS HistoryFree Emit
CHECK_DEADLOCK FALSE

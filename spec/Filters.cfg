SPECIFICATION Spec
CONSTANTS VALUES = {0, 1, 99999}
 W = 3
 H = 2
INVARIANTS ZeroMean Blind Trivial Filled
CHECK_DEADLOCK FALSE

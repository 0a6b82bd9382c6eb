CONSTANTS MAXCAND = 2 VERDICTS = {"pass", "fail"}
SPECIFICATION Spec
INVARIANTS Accounted Sound FirstReason MatchesOperator
PROPERTY Finishes
CHECK_DEADLOCK FALSE

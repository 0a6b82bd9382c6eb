SPECIFICATION TSpec
POSTCONDITION Judged
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT EMIT = TRUE
INVARIANTS Disjoint Readable Emit
CHECK_DEADLOCK FALSE

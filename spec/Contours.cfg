CONSTANTS FIELDS <- Fields33
SPECIFICATION Spec
INVARIANTS NoDoubleVisit Adjacent EndsWell Partition Complete OnEdge
PROPERTY Terminates
CHECK_DEADLOCK FALSE

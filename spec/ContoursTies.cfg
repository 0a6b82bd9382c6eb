CONSTANTS FIELDS <- Fields33Ties
SPECIFICATION Spec
INVARIANTS NoDoubleVisit Adjacent EndsWell Partition Complete OnEdge
CHECK_DEADLOCK FALSE

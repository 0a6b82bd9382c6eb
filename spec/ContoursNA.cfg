CONSTANTS FIELDS <- Fields42NA
SPECIFICATION Spec
INVARIANTS NoDoubleVisit Adjacent EndsWell Partition Complete OnEdge
CHECK_DEADLOCK FALSE

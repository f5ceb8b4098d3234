CONSTANTS H = 2 N = 2
SPECIFICATION Spec
INVARIANTS SinRange Atan2Encl CornerHull Export
CHECK_DEADLOCK FALSE

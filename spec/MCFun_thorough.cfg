CONSTANTS H = 4 N = 3
SPECIFICATION Spec
INVARIANTS SinRange Atan2Encl CornerHull Export
CHECK_DEADLOCK FALSE

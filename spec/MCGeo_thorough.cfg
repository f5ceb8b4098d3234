CONSTANTS Full = TRUE
SPECIFICATION Spec
INVARIANTS RotationLaws CoordAxes ViewLaws PerspLaws AffineLaws Export
CHECK_DEADLOCK FALSE

CONSTANTS N = 4 K = 4
SPECIFICATION Spec
INVARIANTS OrderLaws ClampLaws SignLaws CloseLaws Export
CHECK_DEADLOCK FALSE

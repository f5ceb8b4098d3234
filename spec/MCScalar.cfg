CONSTANTS N = 2 K = 3
SPECIFICATION Spec
INVARIANTS OrderLaws ClampLaws SignLaws CloseLaws Export
CHECK_DEADLOCK FALSE

CONSTANT M = 20
CONSTANT R = 1
SPECIFICATION Spec
INVARIANT Laws
INVARIANT Rounds
CHECK_DEADLOCK FALSE

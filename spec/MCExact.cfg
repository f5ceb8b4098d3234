CONSTANT M = 7
CONSTANT R = 1
SPECIFICATION Spec
INVARIANT Laws
INVARIANT Rounds
CHECK_DEADLOCK FALSE

CONSTANT M = 1
CONSTANT R = 1
SPECIFICATION PSpec
INVARIANT PShown
CHECK_DEADLOCK FALSE

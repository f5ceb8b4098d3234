CONSTANT M = 1
CONSTANT R = 5
SPECIFICATION PSpec
INVARIANT PShown
CHECK_DEADLOCK FALSE

CONSTANTS N = 1
SPECIFICATION Spec
INVARIANTS DotHull CrossHull SqHull Export
CHECK_DEADLOCK FALSE

CONSTANTS N = 2
SPECIFICATION Spec
INVARIANTS DotHull CrossHull SqHull Export
CHECK_DEADLOCK FALSE

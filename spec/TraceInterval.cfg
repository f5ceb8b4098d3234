SPECIFICATION Spec
INVARIANT Inclusion
CHECK_DEADLOCK FALSE

CONSTANTS EB = 3 MB = 2
SPECIFICATION Spec
INVARIANTS Adjacent Inverse OrdinalView Export
CHECK_DEADLOCK FALSE

CONSTANTS EB = 4 MB = 3
SPECIFICATION Spec
INVARIANTS Adjacent Inverse OrdinalView Export
CHECK_DEADLOCK FALSE

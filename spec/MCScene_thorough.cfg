CONSTANTS Steps = 6
SPECIFICATION Spec
INVARIANTS Answers OrderFree YesNo Sound Export
CHECK_DEADLOCK FALSE

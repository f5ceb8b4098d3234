CONSTANTS Steps = 5
SPECIFICATION Spec
INVARIANTS Answers OrderFree YesNo Sound Export
CHECK_DEADLOCK FALSE

CONSTANTS Big = FALSE
SPECIFICATION Spec
INVARIANTS Conjugate ByTheRules OnLens Sweep Upright Export
CHECK_DEADLOCK FALSE

CONSTANTS Big = TRUE
SPECIFICATION Spec
INVARIANTS ByDefinition EndsInside EntersByFace Export
CHECK_DEADLOCK FALSE

CONSTANTS Big = FALSE
SPECIFICATION Spec
INVARIANTS ByDefinition EndsInside EntersByFace Export
CHECK_DEADLOCK FALSE

CONSTANTS Big = FALSE
SPECIFICATION Spec
INVARIANTS ByRoots SoundDecision SharpDecision Boxed Export
CHECK_DEADLOCK FALSE

CONSTANTS Big = TRUE
SPECIFICATION Spec
INVARIANTS ByRoots SoundDecision SharpDecision Boxed Export
CHECK_DEADLOCK FALSE

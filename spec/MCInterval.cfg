CONSTANTS N = 2 K = 2
SPECIFICATION Spec
INVARIANTS SoundMachine AlgIsHull Export
CHECK_DEADLOCK FALSE

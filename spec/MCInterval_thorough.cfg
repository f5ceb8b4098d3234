CONSTANTS N = 2 K = 3
SPECIFICATION Spec
INVARIANTS SoundMachine AlgIsHull Export
CHECK_DEADLOCK FALSE

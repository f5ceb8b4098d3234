CONSTANTS N = 1 K = 3
SPECIFICATION Spec
INVARIANTS Torsor CrossLaws DotLaws Lattice Export
CHECK_DEADLOCK FALSE

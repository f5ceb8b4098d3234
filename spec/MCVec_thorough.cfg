CONSTANTS N = 2 K = 3
SPECIFICATION Spec
INVARIANTS Torsor CrossLaws DotLaws Lattice Export
CHECK_DEADLOCK FALSE

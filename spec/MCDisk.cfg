CONSTANTS N = 32
SPECIFICATION Spec
INVARIANTS InDisk Rings Quarter Seams PolarArea ConcArea Export
CHECK_DEADLOCK FALSE

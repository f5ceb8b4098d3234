CONSTANTS K = 3
SPECIFICATION Spec
INVARIANTS InverseLaws TransposeLaws ProductLaws Majorants Export
CHECK_DEADLOCK FALSE

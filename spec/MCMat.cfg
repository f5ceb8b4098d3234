CONSTANTS K = 2
SPECIFICATION Spec
INVARIANTS InverseLaws TransposeLaws ProductLaws Majorants Export
CHECK_DEADLOCK FALSE

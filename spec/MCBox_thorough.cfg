CONSTANTS CX = {0, 2, 4}
          CY = {0, 2, 4}
          CZ = {0, 2}
SPECIFICATION Spec
INVARIANTS IsSet EmptyMatches Laws Export
CHECK_DEADLOCK FALSE

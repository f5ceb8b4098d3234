CONSTANTS NCon = 2
          NOps = 2
          Shifts = {6, 8, 11}
          Factors = {5, 7, 9, 10}
SPECIFICATION Spec
INVARIANTS Enclosure Images ThereAndBack Degenerate Export
CHECK_DEADLOCK FALSE

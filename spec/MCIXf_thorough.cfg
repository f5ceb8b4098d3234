CONSTANTS NCon = 2
          NOps = 2
          Shifts = {5, 6, 8, 9, 11}
          Factors = {5, 6, 7, 9, 10, 12}
SPECIFICATION Spec
INVARIANTS Enclosure Images ThereAndBack Degenerate Export
CHECK_DEADLOCK FALSE

CONSTANTS NCon = 2
          NOps = 3
          SecondGens = {1, 2, 3, 5, 6, 7, 8}
SPECIFICATION Spec
INVARIANTS MutualInverse RoundTrip Composes Exchanges AffineLaws BoxLaw Export
CHECK_DEADLOCK FALSE

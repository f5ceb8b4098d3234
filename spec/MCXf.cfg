CONSTANTS NCon = 2
          NOps = 2
          SecondGens = {1, 2, 5, 7}
SPECIFICATION Spec
INVARIANTS MutualInverse RoundTrip Composes Exchanges AffineLaws BoxLaw Export
CHECK_DEADLOCK FALSE

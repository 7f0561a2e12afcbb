SPECIFICATION Spec
CONSTANTS
    W = 4
    H = 4
    MaxLen = 5
INVARIANTS HullSoFar NextIsNext Extremes
CHECK_DEADLOCK FALSE

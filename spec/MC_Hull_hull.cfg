SPECIFICATION Spec
CONSTANTS
    W = 3
    H = 3
    MaxLen = 6
INVARIANTS HullSoFar NextIsNext Extremes
CHECK_DEADLOCK FALSE

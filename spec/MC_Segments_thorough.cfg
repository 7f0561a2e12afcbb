SPECIFICATION Spec
CONSTANTS
    W = 4
    H = 4
INVARIANTS Agrees CrossingRight Symmetric
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
    W = 3
    H = 2
    MaxPositions = 5
INVARIANTS Agrees Backwards
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
    W = 3
    H = 3
    MaxPositions = 5
INVARIANTS Agrees Backwards
CHECK_DEADLOCK FALSE

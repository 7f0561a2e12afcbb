SPECIFICATION Spec
CONSTANTS
    W = 3
    H = 3
    MaxPositions = 4
INVARIANTS Agrees Runs Backwards NoRepeats AxesAlike
CHECK_DEADLOCK FALSE

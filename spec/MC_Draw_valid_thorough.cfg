SPECIFICATION Spec
CONSTANTS
    W = 3
    H = 3
    MaxPositions = 6
INVARIANTS Agrees Runs Backwards NoRepeats AxesAlike
CHECK_DEADLOCK FALSE

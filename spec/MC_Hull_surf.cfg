SPECIFICATION Spec
CONSTANTS
    W = 3
    H = 3
    MaxLen = 6

CHECK_DEADLOCK FALSE

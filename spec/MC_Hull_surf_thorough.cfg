SPECIFICATION Spec
CONSTANTS
    W = 3
    H = 3
    MaxLen = 7

CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
    W = 4
    H = 4
    MaxLen = 4

CHECK_DEADLOCK FALSE

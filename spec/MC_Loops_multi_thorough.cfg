SPECIFICATION Spec
CONSTANTS
    W = 4
    H = 3
    Len1 = 4
    Len2 = 4
    Pockets = FALSE
INVARIANTS Agrees Converse
CHECK_DEADLOCK FALSE

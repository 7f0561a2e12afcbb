SPECIFICATION Spec
CONSTANTS
    W = 4
    H = 3
    Len1 = 3
    Len2 = 3
    Pockets = TRUE
INVARIANTS Agrees Converse
CHECK_DEADLOCK FALSE

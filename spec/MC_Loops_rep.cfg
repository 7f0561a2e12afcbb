SPECIFICATION Spec
CONSTANTS
    W = 3
    H = 3
    Len1 = 3
    Len2 = 3
    Pockets = FALSE
INVARIANTS Agrees Converse Invariant
CHECK_DEADLOCK FALSE

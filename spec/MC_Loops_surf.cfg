SPECIFICATION Spec
CONSTANTS
    W = 3
    H = 3
    Len1 = 4
    Len2 = 3
    Pockets = FALSE
INVARIANTS Agrees 
CHECK_DEADLOCK FALSE

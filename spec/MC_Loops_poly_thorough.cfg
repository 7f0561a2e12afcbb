SPECIFICATION Spec
CONSTANTS
    W = 4
    H = 3
    Len1 = 4
    Len2 = 4
    Pockets = FALSE
INVARIANTS Agrees Converse Boxed BySamples
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
    W = 3
    H = 3
PROPERTY Terminates
INVARIANTS Agrees CrossingRight Symmetric
CHECK_DEADLOCK FALSE

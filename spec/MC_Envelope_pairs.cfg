SPECIFICATION Spec
CONSTANTS
    Values <- Specials
    Corners <- Few
    Steps = 3
INVARIANTS Smallest Related2
CHECK_DEADLOCK FALSE

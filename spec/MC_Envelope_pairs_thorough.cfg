SPECIFICATION Spec
CONSTANTS
    Values <- Specials
    Corners <- Some
    Steps = 3
INVARIANTS Smallest Related2
CHECK_DEADLOCK FALSE

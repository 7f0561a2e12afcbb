SPECIFICATION Spec
CONSTANTS
    Values <- Fewer
    Steps = 3
INVARIANTS Smallest Laws ListEnv
CHECK_DEADLOCK FALSE

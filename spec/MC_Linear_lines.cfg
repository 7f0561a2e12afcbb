SPECIFICATION Spec
CONSTANTS
    Values <- Numbers
    Steps = 2
INVARIANTS Smallest Laws ListEnv
CHECK_DEADLOCK FALSE

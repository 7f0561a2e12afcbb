SPECIFICATION Spec
CONSTANTS
    W = 2
    H = 2
    LineLen = 3
    LoopLen = 4
    Members = 3
INVARIANTS Agrees Twice NotItself
CHECK_DEADLOCK FALSE

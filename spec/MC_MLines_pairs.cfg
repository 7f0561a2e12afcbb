SPECIFICATION Spec
CONSTANTS
    W = 3
    H = 3
    LineLen = 2
    LoopLen = 3
    Members = 2
INVARIANTS Agrees Twice NotItself
CHECK_DEADLOCK FALSE

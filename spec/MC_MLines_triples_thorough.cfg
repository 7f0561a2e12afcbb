SPECIFICATION Spec
CONSTANTS
    W = 3
    H = 2
    LineLen = 2
    LoopLen = 3
    Members = 3
INVARIANTS Agrees Twice NotItself
CHECK_DEADLOCK FALSE

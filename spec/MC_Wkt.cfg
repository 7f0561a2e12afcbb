SPECIFICATION Spec
CONSTANTS
    MaxTokens = 18
INVARIANTS Agrees Stays Depths Faithful
CHECK_DEADLOCK FALSE

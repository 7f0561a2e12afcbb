SPECIFICATION Spec
CONSTANTS
    MaxTokens = 24
INVARIANTS Agrees Stays Depths Faithful
CHECK_DEADLOCK FALSE

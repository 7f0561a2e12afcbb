SPECIFICATION Spec
CONSTANTS
    Corners = 4
    Members = 3
INVARIANTS Agrees Even Ordered NoBoundary
CHECK_DEADLOCK FALSE

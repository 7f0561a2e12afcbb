SPECIFICATION Spec
CONSTANTS
    Corners = 4
    Members = 5
INVARIANTS Agrees Even Ordered NoBoundary
CHECK_DEADLOCK FALSE

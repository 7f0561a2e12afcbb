SPECIFICATION Spec
CONSTANTS
    Order = 6
    Apart = 100
INVARIANTS OnTrack NoDeadEnd Refines Ending ScaledUp
PROPERTY Visits
CHECK_DEADLOCK FALSE

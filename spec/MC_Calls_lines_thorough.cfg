SPECIFICATION Spec
CONSTANTS
    Size = 6
    Values <- ZeroOne
INVARIANTS LocRight PointsLaws InfosLaws LengthsLaws PairsLaws LinesLaws ConvertsLaws
CHECK_DEADLOCK FALSE

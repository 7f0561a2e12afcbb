SPECIFICATION Spec
CONSTANTS
    Size = 4
    Values <- ZeroOne
INVARIANTS LocRight PointsLaws InfosLaws LengthsLaws PairsLaws LinesLaws ConvertsLaws
CHECK_DEADLOCK FALSE

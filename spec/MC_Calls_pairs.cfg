SPECIFICATION Spec
CONSTANTS
    Size = 2
    Values <- Odd6
INVARIANTS LocRight PointsLaws InfosLaws LengthsLaws PairsLaws LinesLaws ConvertsLaws
CHECK_DEADLOCK FALSE

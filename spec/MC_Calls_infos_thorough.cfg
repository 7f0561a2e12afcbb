SPECIFICATION Spec
CONSTANTS
    Size = 4
    Values <- Odd5
INVARIANTS LocRight PointsLaws InfosLaws LengthsLaws PairsLaws LinesLaws ConvertsLaws
CHECK_DEADLOCK FALSE

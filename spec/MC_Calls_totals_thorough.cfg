SPECIFICATION Spec
CONSTANTS
    Size = 3
    Values <- Codes8
INVARIANTS LocRight PointsLaws InfosLaws LengthsLaws PairsLaws LinesLaws ConvertsLaws
CHECK_DEADLOCK FALSE

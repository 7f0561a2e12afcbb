SPECIFICATION Spec
CONSTANTS
    Size = 4
    Values <- Zero2
INVARIANTS LocRight PointsLaws InfosLaws LengthsLaws PairsLaws LinesLaws ConvertsLaws
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
    L = 12
    BW = 3
    U = 100
    Steps = {25, 60}
    Rebuild = TRUE
    Cell = 6
    Offsets = {0, 37}
    MaxSteps = 4
INVARIANTS OneContour WhereItShould WhereItShouldSteady InTheBand
CHECK_DEADLOCK FALSE

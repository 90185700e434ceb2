SPECIFICATION Spec
CONSTANTS
    L = 16
    BW = 4
    U = 100
    Steps = {20, 50, 95}
    Rebuild = TRUE
    Cell = 8
    Offsets = {0, 37, 50, 99}
    MaxSteps = 4
INVARIANTS OneContour WhereItShould WhereItShouldSteady InTheBand
CHECK_DEADLOCK FALSE

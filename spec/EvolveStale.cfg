SPECIFICATION Spec
CONSTANTS
    L = 14
    BW = 3
    U = 100
    Steps = {75}
    Rebuild = FALSE
    Cell = 7
    Offsets = {0}
    MaxSteps = 6
INVARIANTS WhereItShouldSteady
CHECK_DEADLOCK FALSE

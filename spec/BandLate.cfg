SPECIFICATION Spec
CONSTANTS
    L = 12
    BW = 3
    Fixed = TRUE
    U = 4
    S = 3
    Trigger = 1
    Masks = {6, 9}
INVARIANTS ContourInBand

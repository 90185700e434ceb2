SPECIFICATION Spec
CONSTANTS
    L = 24
    BW = 6
    Fixed = FALSE
    U = 8
    S = 7
    Trigger = 8
    Masks = {6, 9}
INVARIANTS SidesRight ContourInBand BandWellFormed

SPECIFICATION Spec
CONSTANTS
    L = 12
    BW = 3
    Fixed = TRUE
    U = 4
    S = 3
    Trigger = 4
    Masks = {6, 9}
INVARIANTS SidesRight ContourInBand BandWellFormed

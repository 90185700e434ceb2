SPECIFICATION Spec
CONSTANTS
    NC = 1
    Sens = {0, 3, 4}
    Dists = {60, 90, 100, 104, 108, 150}
    Negs = {0, 16}
    Qs = {0, 4, 8, 16}
    Rescale = FALSE
INVARIANTS WithinMaximum

SPECIFICATION Spec
CONSTANTS
    NC = 2
    Sens = {1, 2, 3}
    Dists = {60, 100, 106}
    Negs = {16}
    Qs = {0, 8, 16}
    Rescale = TRUE
INVARIANTS WithinMaximum InsideDomain FixedStay LeftOutHolds EqualityKept ReductionAllowed TargetsAttainable

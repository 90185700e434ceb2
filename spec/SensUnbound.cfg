SPECIFICATION Spec
CONSTANTS
    Size = 3
    Delta = 1
    Comp = 1
    Restore = TRUE
    Bound = FALSE
INVARIANTS AgainstUndisplaced PointsRestored

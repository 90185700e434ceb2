SPECIFICATION Spec
CONSTANTS
    Size = 3
    Delta = 1
    Comp = 1
    Restore = FALSE
    Bound = TRUE
INVARIANTS PointsRestored

SPECIFICATION Spec
CONSTANTS
    W = 2
    H = 1
    Patterns = {1, 2, 3}
    V = 2
INVARIANTS NoDuplicates PointsAreCrossings NodesKnowTheirPoints

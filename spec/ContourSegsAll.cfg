SPECIFICATION Spec
CONSTANTS
    W = 2
    H = 2
    Patterns = {1, 2, 3}
    V = 1
INVARIANTS NoDangling SegmentsJoinDifferentPoints AtMostFourPerElement AreaMatchesSegments

SPECIFICATION Spec
CONSTANTS
    W = 2
    H = 1
    Patterns = {1}
    V = 2
INVARIANTS AreaInRange Complement Mirrored AreaMatchesSegments

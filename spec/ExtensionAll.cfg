SPECIFICATION ESpec
CONSTANTS
    One = 60
    W = 3
    H = 2
    Patterns = {1, 2}
    VelPatterns = {1, 2, 3}
INVARIANTS InHull Uniform WeightsPositive

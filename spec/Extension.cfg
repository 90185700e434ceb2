SPECIFICATION ESpec
CONSTANTS
    One = 60
    W = 2
    H = 2
    Patterns = {1}
    VelPatterns = {1, 2, 3}
INVARIANTS InHull Uniform WeightsPositive

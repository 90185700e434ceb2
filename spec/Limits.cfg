SPECIFICATION Spec
CONSTANTS
    W = 2
    H = 1
    Steps = 8
    Caps = {100000, 250000, 500000, 900000}
INVARIANTS RuleHolds InsideGlobal StaysInDomain StaysOutOfMask OnEdgeCannotMoveOut

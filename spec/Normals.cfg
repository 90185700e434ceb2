SPECIFICATION Spec
CONSTANTS
    W = 2
    H = 1
    V = 1
INVARIANTS UnitOrNone PlaneExact ScaleFree Negated

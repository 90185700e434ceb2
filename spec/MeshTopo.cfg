CONSTANTS MaxW = 6 MaxH = 6
SPECIFICATION Spec
INVARIANTS NeighboursRight NeighboursSymmetric CornersRight ReverseRight
CHECK_DEADLOCK FALSE

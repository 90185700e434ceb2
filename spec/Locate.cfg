CONSTANTS S = 4 MaxW = 4 MaxH = 4
SPECIFICATION Spec
INVARIANTS ElementContains NodeNearest
CHECK_DEADLOCK FALSE

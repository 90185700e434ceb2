CONSTANTS MaxCap = 4 Vals = {0, 1, 2} MaxPush = 5
SPECIFICATION Spec
VIEW View
INVARIANTS HeapOrdered BackRight NoDuplicates
PROPERTY RefinesPQ
CHECK_DEADLOCK FALSE

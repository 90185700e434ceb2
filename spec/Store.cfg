SPECIFICATION Spec
CONSTANTS
    Objs = {1, 2}
    Vals = {2, 3}
    Names = {1, 2, 3}
INVARIANTS LoadsWhatWasSaved
PROPERTIES SaveTouchesOneFile

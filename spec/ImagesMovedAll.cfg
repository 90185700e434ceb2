SPECIFICATION Spec
CONSTANTS W = 4 H = 3 V = 1 Void = TRUE Tilted = FALSE
INVARIANTS FieldMoved PointsMoved PlacesMoved SegmentsMoved AreasMoved NothingElse

SPECIFICATION Spec
CONSTANTS W = 2 H = 1 V = 1 Void = FALSE Tilted = FALSE
INVARIANTS FieldMoved PointsMoved PlacesMoved SegmentsMoved AreasMoved NothingElse

SPECIFICATION Spec
INVARIANTS ElementSegments SegmentLengths CrossReferences NoEndsInside

SPECIFICATION Spec
INVARIANTS KindsAgree BandAgrees FieldAgrees VelocitiesAgree GradientsAgree AreasAgree TotalsAgree ReturnsAgree PointsAgree SegmentsAgree
